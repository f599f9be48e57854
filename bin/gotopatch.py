#!/usr/bin/env python3
"""Gives a linked goto binary the semantics of a build without overflow checks.

rustc lowers `a + b` in a checked build to "compute; assert no overflow". Kani's compiler always
builds with those checks and encodes each as ASSERT(no overflow); ASSUME(no overflow). Here both
instructions become skips, so the wrapped value flows on, which is what a release build does.
Reads CBMC's goto-binary format (version 6) and overwrites the one-byte instruction types in place.
"""
import re, sys

ASSUME, ASSERT, SKIP = 2, 3, 5
OVERFLOW = re.compile(r"^attempt to (add|subtract|multiply|negate|compute|shift).*overflow")


class R:
    def __init__(self, b):
        self.b, self.p, self.irep, self.strs = b, 0, {}, {}

    def byte(self):
        c = self.b[self.p]
        self.p += 1
        return c

    def word(self):
        v = s = 0
        while True:
            c = self.byte()
            v |= (c & 0x7F) << s
            if not c & 0x80:
                return v
            s += 7

    def string(self):
        out = bytearray()
        while True:
            c = self.byte()
            if c == 0:
                return out.decode("latin1")
            if c == 0x5C:
                c = self.byte()
            out.append(c)

    def sref(self):
        n = self.word()
        if n not in self.strs:
            self.strs[n] = self.string()
        return self.strs[n]

    def ref(self):
        n = self.word()
        if n in self.irep:
            return self.irep[n]
        # (id, subs, named)
        node = [None, [], {}]
        self.irep[n] = node
        node[0] = self.sref()
        while self.b[self.p] == 0x53:  # 'S'
            self.p += 1
            node[1].append(self.ref())
        while self.b[self.p] in (0x4E, 0x43):  # 'N', 'C'
            self.p += 1
            k = self.sref()
            node[2][k] = self.ref()
        if self.byte() != 0:
            raise ValueError("irep not terminated")
        return node


def patch(src, dst, keep=lambda fn: False):
    """Returns the number of overflow checks removed."""
    sys.setrecursionlimit(100000)
    b = bytearray(open(src, "rb").read())
    r = R(b)
    if bytes(b[:4]) != b"\x7fGBF":
        raise ValueError("not a goto binary")
    r.p = 4
    if r.word() != 6:
        raise ValueError("goto binary version")
    for _ in range(r.word()):
        r.ref(); r.ref(); r.ref()
        for _ in range(5):
            r.sref()
        r.word(); r.word()
    n = 0
    for _ in range(r.word()):
        fn = r.string()
        pending = None
        for _ in range(r.word()):
            r.ref()
            loc = r.ref()
            at = r.p
            t = r.word()
            guard = r.ref()
            r.word()
            for _ in range(r.word()):
                r.word()
            for _ in range(r.word()):
                r.sref()
            if keep(fn):
                continue
            comment = loc[2].get("comment", [""])[0]
            if t == ASSERT and OVERFLOW.match(comment):
                b[at] = SKIP
                pending = guard
                n += 1
            elif t == ASSUME and pending is not None and same(guard, pending):
                b[at] = SKIP
                pending = None
            elif t not in (SKIP, 8, 15, 16):  # LOCATION, DECL, DEAD
                pending = None
    open(dst, "wb").write(b)
    return n


def same(a, b):
    return a is b or (a[0] == b[0] and len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1])))


if __name__ == "__main__":
    print(patch(sys.argv[1], sys.argv[2]))
