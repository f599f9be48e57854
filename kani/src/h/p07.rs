use crate::sym::*;
use crate::util::*;
use bytedata::*;
use core::fmt::Write;

const CAP: usize = 40;
/// What a growable vector would hold.
#[derive(Clone, Copy)]
struct V {
    d: [u8; CAP],
    n: usize,
}
impl V {
    fn new() -> V {
        V { d: [0; CAP], n: 0 }
    }
    fn put(&mut self, s: &[u8]) {
        let mut i = 0;
        while i < s.len() {
            self.d[self.n] = s[i];
            self.n += 1;
            i += 1;
        }
    }
    fn get(&self) -> &[u8] {
        &self.d[..self.n]
    }
}

/// The builder shows exactly the bytes of the vector.
#[inline(always)]
fn is(b: &SharedBytesBuilder, v: &V) {
    chk!(b.len() == v.n && b.is_empty() == (v.n == 0), "length");
    chk!(same_all(b.as_slice(), v.get()), "contents");
    chk!(b.capacity() >= v.n, "capacity covers the contents");
}
fn at(p: *const u8) -> usize {
    p as usize
}

/// One step; `d` are the bytes it may write.
#[inline(always)]
fn step(b: &mut SharedBytesBuilder, v: &mut V, d: &[u8], op: usize) {
    match op {
        0 => {
            b.extend_from_slice(&d[..3]);
            v.put(&d[..3]);
        }
        1 => {
            let c = b.capacity();
            b.reserve(5);
            chk!(b.capacity() >= v.n + 5 && b.capacity() >= c, "reserved");
            let p = at(b.as_slice_mut().as_ptr());
            b.extend_from_slice(&d[..5]);
            v.put(&d[..5]);
            chk!(at(b.as_slice().as_ptr()) == p, "reserved room is there without growing");
        }
        2 => {
            b.truncate(2);
            v.n = v.n.min(2);
        }
        3 => {
            b.clear();
            v.n = 0;
        }
        4 => {
            let spare = b.capacity() - v.n;
            let k = spare.min(2);
            let r = b.apply_unfilled(|x| {
                chk!(x.len() == spare, "all of the spare room is offered");
                let mut i = 0;
                while i < k {
                    x[i].write(d[i]);
                    i += 1;
                }
                (7u8, k)
            });
            chk!(r == 7, "result");
            v.put(&d[..k]);
        }
        5 => {
            b.extend(core::iter::once(d[0]));
            b.extend(core::iter::once(&d[1]));
            v.put(&d[..2]);
        }
        6 => {
            b.extend(core::iter::once(&d[..4]));
            v.put(&d[..4]);
            b.extend(core::iter::once("ab"));
            v.put(b"ab");
        }
        7 => {
            chk!(b.write_str("xyz").is_ok(), "write_str");
            v.put(b"xyz");
        }
        8 => {
            let s = b.as_slice_mut();
            chk!(s.len() == v.n, "mutable length");
            if v.n > 0 {
                s[v.n - 1] = d[0];
                v.d[v.n - 1] = d[0];
                b[0] = d[1];
                v.d[0] = d[1];
            }
        }
        9 => {
            b.extend_from_slice(&[]);
            b.reserve(0);
            b.truncate(v.n);
            b.truncate(usize::MAX);
            b.truncate(1 << 32);
        }
        10 => {
            b.extend_from_slice(&d[..8]);
            v.put(&d[..8]);
        }
        _ => {
            // empty, built and taken back
            let t = core::mem::take(b).build();
            chk!(same_all(&t, v.get()), "built");
            *b = t.into();
        }
    }
}
const OPS: usize = 12;
/// A builder created in way `k` for alignment `a`, and what it holds.
#[inline(always)]
fn create(k: usize, a: usize, d: &[u8]) -> (SharedBytesBuilder, V) {
    let mut v = V::new();
    let b = match k {
        0 => SharedBytesBuilder::new(),
        1 => SharedBytes::builder(),
        2 => SharedBytesBuilder::with_capacity(0),
        3 => SharedBytesBuilder::with_capacity(1),
        4 => SharedBytesBuilder::with_capacity(5),
        5 => SharedBytesBuilder::with_alignment(a),
        6 => SharedBytesBuilder::with_aligned_capacity(0, a),
        7 => SharedBytesBuilder::with_aligned_capacity(6, a),
        8 => {
            v.put(&d[..4]);
            SharedBytes::from_slice(&d[..4]).into()
        }
        9 => {
            v.put(&d[1..3]);
            SharedBytes::from_slice_aligned(&d[..4], a).into_sliced(1, 2).into()
        }
        _ => {
            v.put(&d[1..4]);
            let s = SharedBytes::from_slice_aligned(&d[..4], a);
            let _t = s.clone();
            s.into_sliced(1, 3).into()
        }
    };
    let c = match k {
        3 => 1,
        4 => 5,
        7 => 6,
        _ => v.n,
    };
    chk!(b.capacity() >= c, "requested capacity");
    (b, v)
}
#[inline(always)]
fn finish(b: SharedBytesBuilder, v: &V, a: usize) {
    let s = b.build();
    chk!(same_all(&s, v.get()), "built");
    chk!(s.is_unique(), "one handle");
    if v.n > 0 {
        chk!(at(s.as_slice().as_ptr()) % a == 0, "alignment of the built data");
    }
}
/// Creation in way `k`, then `i`, then any step, then building.
#[inline(always)]
fn history(k: usize, a: usize, i: usize) {
    let d: [u8; 8] = any_bytes();
    let e: [u8; 8] = any_bytes();
    let p = any_in(0, OPS - 1);
    let (mut b, mut v) = create(k, a, &d);
    is(&b, &v);
    step(&mut b, &mut v, &d, i);
    is(&b, &v);
    reach!();
    let mut j = 0;
    while j < OPS {
        if p == j {
            step(&mut b, &mut v, &e, j);
            is(&b, &v);
            finish(b, &v, a);
            return;
        }
        j += 1;
    }
}
/// Creation for alignment 1, 2, 4, ... 512 in way `k`; one append and another reallocation.
#[inline(always)]
fn aligned(k: usize) {
    let d: [u8; 8] = any_bytes();
    let p = any_in(0, 9);
    reach!();
    let mut i = 0;
    while i < 10 {
        if p == i {
            let a = 1usize << i;
            let (mut b, mut v) = create(k, a, &d);
            is(&b, &v);
            b.extend_from_slice(&d);
            v.put(&d);
            b.reserve(9);
            chk!(b.capacity() >= v.n + 9, "reserved");
            is(&b, &v);
            finish(b, &v, a);
            return;
        }
        i += 1;
    }
}
/// Steps of a text builder that holds "ab" and `c`.
fn text(c: char, k: usize) {
    let mut b = SharedStrBuilder::new();
    let mut v = V::new();
    let mut x = [0u8; 4];
    b.push_str("ab");
    v.put(b"ab");
    b.push(c);
    v.put(c.encode_utf8(&mut x).as_bytes());
    chk!(b.len() == v.n && !b.is_empty() && b.capacity() >= v.n, "length");
    chk!(same_all(b.as_bytes(), v.get()) && same_all(b.as_str().as_bytes(), v.get()), "contents");
    match k {
        0 => {
            b.truncate(2);
            chk!(same_all(&b.build(), b"ab"), "truncated");
        }
        1 => {
            b.reserve(7);
            chk!(b.capacity() >= v.n + 7, "reserved");
            chk!(same_all(b.build_str().as_bytes(), v.get()), "built");
        }
        2 => {
            b.truncate(v.n);
            b.truncate(99);
            chk!(b.len() == v.n, "nothing to truncate");
            b.clear();
            chk!(b.is_empty() && b.len() == 0, "cleared");
            b.push(c);
            chk!(same_all(&ByteData::from(b), &v.d[2..v.n]), "pushed again");
        }
        3 => {
            chk!(b.write_str("z").is_ok(), "write_str");
            v.put(b"z");
            chk!(same_all(&b.into_shared_bytes_builder(), v.get()), "bytes");
        }
        4 => {
            chk!(b.write_char(c).is_ok(), "write_char");
            v.put(c.encode_utf8(&mut x).as_bytes());
            chk!(same_all(StringData::from(b).as_bytes(), v.get()), "text");
        }
        5 => {
            b.push_str("");
            b.truncate(0);
            chk!(b.is_empty() && b.build_str().is_empty(), "truncated to nothing");
        }
        _ => {
            chk!(same_all(&SharedBytesBuilder::from(b), v.get()), "bytes");
        }
    }
}
#[inline(always)]
fn text_for(k: usize) {
    let p = any_in(0, 3);
    reach!();
    if p == 0 {
        text('b', k);
        return;
    }
    if p == 1 {
        text('\u{e9}', k);
        return;
    }
    if p == 2 {
        text('\u{20ac}', k);
        return;
    }
    text('\u{1f600}', k);
}
fn max(off: usize) -> usize {
    0xFFFF_FFFF - off
}
/// Room of any size, seen through the spare bytes; its ends are written.
#[inline(always)]
fn roomy(mut b: SharedBytesBuilder, n: usize, v: &mut V, e: [u8; 2]) {
    let r = b.apply_unfilled(|x| {
        let l = x.len();
        if l >= 2 {
            x[0].write(e[0]);
            x[l - 1].write(e[1]);
        }
        (l, if l >= 1 { 1 } else { 0 })
    });
    chk!(r >= n, "requested capacity");
    if r >= 2 {
        v.put(&e[..1]);
        is(&b, v);
    }
    drop(b);
}

harnesses! {
    /// new, then append, then any step
    fn steps_new_append [42] { history(0, 4, 0); }
    /// new, then reserve and fill, then any step
    fn steps_new_reserve [42] { history(1, 4, 1); }
    /// a capacity, then truncate, then any step
    fn steps_cap_truncate [42] { history(4, 4, 2); }
    /// a capacity, then append more than that, then any step
    fn steps_cap_long [42] { history(4, 4, 10); }
    /// a capacity, then fill spare room, then any step
    fn steps_cap_spare [42] { history(4, 4, 4); }
    /// a capacity of one, then append through iterators of bytes, then any step
    fn steps_one_bytes [42] { history(3, 4, 5); }
    /// an aligned capacity, then iterators of slices, then any step
    fn steps_aligned_slices [42] { history(7, 64, 6); }
    /// an alignment, then text, then any step
    fn steps_aligned_text [42] { history(5, 16, 7); }
    /// a block taken over, then writing in place, then any step
    fn steps_block_write [42] { history(8, 4, 8); }
    /// a block taken over, then clear, then any step
    fn steps_block_clear [42] { history(8, 4, 3); }
    /// part of a block taken over, then nothing, then any step
    fn steps_part_nothing [42] { history(9, 64, 9); }
    /// part of a block taken over, then built and taken back, then any step
    fn steps_part_again [42] { history(9, 4, 11); }
    /// part of a block with another handle, then truncate, then any step
    fn steps_copy_truncate [42] { history(10, 64, 2); }
    /// part of a block with another handle, then append, then any step
    fn steps_copy_append [42] { history(10, 16, 0); }
    /// alignments 1 to 512, no capacity
    fn aligned_no_cap [42] { aligned(5); }
    /// alignments 1 to 512, capacity 0
    fn aligned_cap_0 [42] { aligned(6); }
    /// alignments 1 to 512, capacity 6
    fn aligned_cap [42] { aligned(7); }
    /// an initial capacity of any size
    fn any_capacity [42] {
        let n = any_in(0, max(12));
        let b = SharedBytesBuilder::with_capacity(n);
        reach!();
        roomy(b, n, &mut V::new(), any_bytes());
    }
    /// an initial capacity of any size aligned to 512
    fn any_aligned_capacity [42] {
        let n = any_in(0, max(512));
        let b = SharedBytesBuilder::with_aligned_capacity(n, 512);
        reach!();
        roomy(b, n, &mut V::new(), any_bytes());
    }
    /// a reservation of any size, of an empty builder
    fn any_reserve_new [42] {
        let n = any_in(0, max(12));
        let mut b = SharedBytesBuilder::new();
        b.reserve(n);
        reach!();
        roomy(b, n, &mut V::new(), any_bytes());
    }
    /// a reservation of any size, of a builder with contents
    fn any_reserve [42] {
        let n = any_in(0, max(15));
        let mut v = V::new();
        let d: [u8; 3] = any_bytes();
        v.put(&d);
        let mut b = SharedBytesBuilder::new();
        b.extend_from_slice(&d);
        b.reserve(n);
        is(&b, &v);
        reach!();
        roomy(b, n, &mut v, any_bytes());
    }
    /// any length to truncate to
    fn any_truncate [42] {
        let n = any_usize();
        let d: [u8; 6] = any_bytes();
        let mut v = V::new();
        v.put(&d);
        let mut b = SharedBytesBuilder::from(SharedBytes::from_slice(&d));
        b.truncate(n);
        reach!();
        v.n = v.n.min(n);
        is(&b, &v);
        finish(b, &v, 4);
    }
    /// appending to a full block of any size
    fn any_growth [42] {
        let n = any_in(4, max(12) - 3);
        let d: [u8; 4] = any_bytes();
        let mut b = SharedBytesBuilder::with_capacity(n);
        b.apply_unfilled(|x| {
            x[0].write(d[3]);
            x[n - 1].write(d[1]);
            ((), n)
        });
        chk!(b.len() == n && b.capacity() == n, "filled");
        b.extend_from_slice(&d[..3]);
        reach!();
        chk!(b.len() == n + 3 && b.capacity() >= n + 3, "grown");
        let s = b.as_slice();
        chk!(s[0] == d[3] && s[n - 1] == d[1], "contents survive");
        chk!(s[n] == d[0] && s[n + 1] == d[1] && s[n + 2] == d[2], "appended");
    }
    /// a block of an alignment beyond 512 with another handle
    fn beyond_512 [12] {
        let d: [u8; 4] = any_bytes();
        let s = SharedBytes::from_slice_aligned(&d, 1024);
        let t = s.clone();
        let b = SharedBytesBuilder::from(s);
        reach!();
        chk!(same_all(&b, &d) && same_all(&t, &d), "contents");
        chk!(at(b.as_slice().as_ptr()) % 1024 == 0, "alignment");
    }
    /// spare room in an async context
    fn spare_async [42] {
        let d: [u8; 5] = any_bytes();
        let k = any_in(0, 3);
        let mut b = SharedBytesBuilder::with_capacity(5);
        b.extend_from_slice(&d[..2]);
        let mut v = V::new();
        v.put(&d[..2]);
        {
            let f = b.apply_unfilled_async(|x: core::pin::Pin<&mut [core::mem::MaybeUninit<u8>]>| {
                let x = core::pin::Pin::into_inner(x);
                let l = x.len();
                x[0].write(d[2]);
                x[1].write(d[3]);
                x[2].write(d[4]);
                core::future::ready((l, k))
            });
            let mut f = core::pin::pin!(f);
            let w = core::task::Waker::noop();
            let mut cx = core::task::Context::from_waker(w);
            match core::future::Future::poll(f.as_mut(), &mut cx) {
                core::task::Poll::Ready(l) => chk!(l == 3, "all of the spare room is offered"),
                core::task::Poll::Pending => chk!(false, "pending"),
            }
        }
        reach!();
        v.put(&d[2..5]);
        v.n = 2 + k;
        is(&b, &v);
        finish(b, &v, 4);
    }
    /// a text builder: any character
    fn text_char [8] {
        let c = any_char();
        let mut b = SharedStrBuilder::with_capacity(3);
        b.push(c);
        let mut x = [0u8; 4];
        let w = c.encode_utf8(&mut x);
        reach!();
        chk!(b.len() == w.len() && same_all(b.as_bytes(), w.as_bytes()), "a character");
    }
    /// a text builder: text, a character of each length, then truncate
    fn text_truncate [42] { text_for(0); }
    /// a text builder: text, a character of each length, then reserve
    fn text_reserve [42] { text_for(1); }
    /// a text builder: text, a character of each length, then clear
    fn text_clear [42] { text_for(2); }
    /// a text builder: text, a character of each length, then write_str
    fn text_write_str [42] { text_for(3); }
    /// a text builder: text, a character of each length, then write_char
    fn text_write_char [42] { text_for(4); }
    /// a text builder: text, a character of each length, then empty
    fn text_empty [42] { text_for(5); }
    /// a text builder from text
    fn text_from [42] {
        let d: [u8; 5] = any_bytes();
        let p = any_in(0, 2);
        assume(d[0] < 128 && d[1] < 128 && d[2] < 128 && d[3] < 128 && d[4] < 128);
        let s = unsafe { core::str::from_utf8_unchecked(&d) };
        reach!();
        if p == 0 {
            let b = SharedStrBuilder::from(s);
            chk!(same_all(b.as_bytes(), &d), "from &str");
            return;
        }
        if p == 1 {
            let b: SharedStrBuilder = match s.parse() { Ok(b) => b, Err(_) => return };
            chk!(same_all(b.as_bytes(), &d), "parsed");
            return;
        }
        let b = SharedStrBuilder::from(StringData::from_borrowed(s));
        chk!(same_all(b.as_bytes(), &d), "from text");
    }
    /// bytes into a text builder: accepted exactly when valid
    fn text_valid [8] {
        let d: [u8; 3] = any_bytes();
        let mut b = SharedBytesBuilder::new();
        b.extend_from_slice(&d);
        let ok = wf_all(&d);
        let r = SharedStrBuilder::try_from(b);
        reach!();
        match r {
            Ok(b) => chk!(ok && same_all(b.as_bytes(), &d) && same_all(&SharedBytesBuilder::from(b), &d), "valid"),
            Err(_) => chk!(!ok, "valid text accepted"),
        }
    }
    /// truncating text inside a character is refused
    fn rej_text_truncate [42] {
        let c = any_char();
        let n = any_in(0, 3);
        let mut b = SharedStrBuilder::new();
        b.push(c);
        assume(n > 0 && n < c.len_utf8());
        refused!(b.truncate(n), "cut inside a character");
    }
    /// a bad alignment is refused
    fn rej_alignment [42] {
        let a = any_usize();
        assume(a > 512 || !a.is_power_of_two());
        refused!(SharedBytesBuilder::with_alignment(a), "alignment");
    }
    /// a bad alignment is refused, with a capacity
    fn rej_aligned_capacity [42] {
        let a = any_usize();
        let n = any_in(0, 9);
        assume(a > 512 || !a.is_power_of_two());
        refused!(SharedBytesBuilder::with_aligned_capacity(n, a), "alignment");
    }
    /// a capacity too large is refused
    fn rej_capacity [42] {
        let n = any_usize();
        assume(n > max(12));
        refused!(SharedBytesBuilder::with_capacity(n), "capacity");
    }
    /// an aligned capacity too large is refused
    fn rej_capacity_aligned [42] {
        let n = any_usize();
        assume(n > max(64));
        refused!(SharedBytesBuilder::with_aligned_capacity(n, 64), "capacity");
    }
    /// a reservation too large is refused
    fn rej_reserve [42] {
        let n = any_usize();
        assume(n > max(15));
        let mut b = SharedBytesBuilder::new();
        b.extend_from_slice(&[1, 2, 3]);
        refused!(b.reserve(n), "reservation");
    }
    /// filling more than the spare room is refused
    fn rej_spare [42] {
        let k = any_usize();
        let mut b = SharedBytesBuilder::with_capacity(5);
        b.extend_from_slice(&[1, 2]);
        assume(k > 3);
        refused!(b.apply_unfilled(|_| ((), k)), "spare room");
    }
}
