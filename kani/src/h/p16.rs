use crate::sym::*;
use crate::util::*;
use bytedata::*;

/// 0..=N bytes
fn cut<const N: usize>(d: &[u8; N]) -> &[u8] {
    let n = any_in(0, N);
    &d[..n]
}

harnesses! {
    /// const_eq, const_starts_with and const_ends_with on every pair of slices of up to 5 bytes
    fn eq_prefix_suffix [8] {
        let a: [u8; 5] = any_bytes();
        let b: [u8; 5] = any_bytes();
        let a = cut(&a);
        let b = cut(&b);
        let (n, m) = (a.len(), b.len());
        let mut pre = m <= n;
        let mut suf = m <= n;
        let mut i = 0;
        while i < m {
            if m <= n {
                pre &= a[i] == b[i];
                suf &= a[n - m + i] == b[i];
            }
            i += 1;
        }
        chk!(const_eq(a, b) == (pre && n == m), "const_eq");
        chk!(const_starts_with(a, b) == pre, "const_starts_with");
        chk!(const_ends_with(a, b) == suf, "const_ends_with");
        reach!();
    }
    /// const_slice for every range of positions whatever
    fn slice [8] {
        let d: [u8; 6] = any_bytes();
        let d = cut(&d);
        let (s, e) = (any_usize(), any_usize());
        match const_slice(d, s..e) {
            Some(x) => {
                chk!(s <= e && e <= d.len(), "const_slice accepted");
                chk!(same(x, &d[s..e]), "const_slice content");
            }
            None => chk!(!(s <= e && e <= d.len()), "const_slice refused"),
        }
        reach!();
    }
    /// const_slice_str for every text of up to 5 bytes and every range
    fn slice_str [8] {
        let d: [u8; 5] = any_bytes();
        let d = cut(&d);
        let t = text(d);
        let (s, e) = (any_usize(), any_usize());
        let r = const_slice_str(t, s..e);
        let inside = s <= e && e <= d.len();
        let fits = inside && boundary(d, s) && boundary(d, e);
        chk!(r.is_ok() == fits && r.is_err() == !fits, "const_slice_str is_ok");
        chk!((r == StrSliceResult::OutOfBounds) == !inside, "const_slice_str out of bounds");
        chk!(r.err().is_some() == !fits, "StrSliceResult::err");
        match r.ok() {
            Some(x) => {
                chk!(fits, "const_slice_str accepted");
                chk!(same(x.as_bytes(), &d[s..e]), "const_slice_str content");
                chk!(same(r.unwrap().as_bytes(), &d[s..e]), "StrSliceResult::unwrap");
            }
            None => chk!(!fits, "const_slice_str refused"),
        }
        reach!();
    }
    /// unwrapping a refused slice panics
    fn rej_slice_str_unwrap [8] {
        let d: [u8; 4] = any_bytes();
        let d = cut(&d);
        let t = text(d);
        let (s, e) = (any_usize(), any_usize());
        assume(!(s <= e && e <= d.len() && boundary(d, s) && boundary(d, e)));
        let r = const_slice_str(t, s..e);
        refused!(r.unwrap(), "StrSliceResult::unwrap");
    }
    /// const_find_bytes and const_split_once_bytes, haystacks up to 6 bytes, needles up to 4
    fn find_split [10] {
        let h: [u8; 6] = any_bytes();
        let n: [u8; 4] = any_bytes();
        let h = cut(&h);
        let n = cut(&n);
        let want = find(h, n);
        chk!(const_find_bytes(h, n) == want, "const_find_bytes");
        match const_split_once_bytes(h, n) {
            Some((a, b)) => {
                chk!(want == Some(a.len()), "const_split_once_bytes position");
                chk!(same(a, &h[..a.len()]), "const_split_once_bytes first");
                chk!(same(b, &h[a.len()..]), "const_split_once_bytes second");
            }
            None => chk!(want.is_none(), "const_split_once_bytes missed"),
        }
        reach!();
    }
    /// const_split_once_byte, haystacks up to 6 bytes
    fn split_byte [10] {
        let h: [u8; 6] = any_bytes();
        let h = cut(&h);
        let n = any_u8();
        let want = find(h, &[n]);
        match const_split_once_byte(h, n) {
            Some((a, b)) => {
                chk!(want == Some(a.len()), "const_split_once_byte position");
                chk!(same(a, &h[..a.len()]), "const_split_once_byte first");
                chk!(same(b, &h[a.len()..]), "const_split_once_byte second");
            }
            None => chk!(want.is_none(), "const_split_once_byte missed"),
        }
        reach!();
    }
    /// const_split_once_str, texts up to 4 bytes, needles up to 3
    fn split_str [10] {
        let h: [u8; 4] = any_bytes();
        let n: [u8; 3] = any_bytes();
        let h = cut(&h);
        let n = cut(&n);
        let want = find(h, n);
        match const_split_once_str(text(h), text(n)) {
            Some((a, b)) => {
                chk!(want == Some(a.len()), "const_split_once_str position");
                chk!(boundary(h, a.len()), "const_split_once_str boundary");
                chk!(same(a.as_bytes(), &h[..a.len()]), "const_split_once_str first");
                chk!(same(b.as_bytes(), &h[a.len()..]), "const_split_once_str second");
            }
            None => chk!(want.is_none(), "const_split_once_str missed"),
        }
        reach!();
    }
    /// const_or_str, const_or_bytes
    fn or_default [6] {
        let d: [u8; 3] = any_bytes();
        let e: [u8; 3] = any_bytes();
        let some = any_bool();
        let b = const_or_bytes(if some { Some(&d[..]) } else { None }, &e);
        chk!(same(b, if some { &d } else { &e }), "const_or_bytes");
        let (t, u) = (text(&d), text(&e));
        let s = const_or_str(if some { Some(t) } else { None }, u);
        chk!(same(s.as_bytes(), if some { &d } else { &e }), "const_or_str");
        reach!();
    }
    /// build_const_bytes: three inputs of up to 3 bytes into a buffer with room, the rest of which stays as it was
    fn build [12] {
        let a: [u8; 3] = any_bytes();
        let b: [u8; 3] = any_bytes();
        let c: [u8; 2] = any_bytes();
        let init: [u8; 9] = any_bytes();
        let (a, b, c) = (cut(&a), cut(&b), cut(&c));
        let (out, n) = build_const_bytes::<9>(init, &[a, b, c]);
        chk!(n == a.len() + b.len() + c.len(), "build_const_bytes length");
        let i = any_in(0, 8);
        let want = if i < a.len() {
            a[i]
        } else if i - a.len() < b.len() {
            b[i - a.len()]
        } else if i - a.len() - b.len() < c.len() {
            c[i - a.len() - b.len()]
        } else {
            init[i]
        };
        chk!(out[i] == want, "build_const_bytes content");
        reach!();
    }
    /// build_const_bytes refuses a buffer that is too small
    fn rej_build_small [8] {
        let a: [u8; 3] = any_bytes();
        let b: [u8; 3] = any_bytes();
        let (a, b) = (cut(&a), cut(&b));
        assume(a.len() + b.len() > 4);
        refused!(build_const_bytes::<4>([0; 4], &[a, b]), "build_const_bytes");
    }
    /// the concatenation macros (evaluated by the compiler on fixed inputs)
    fn concat_macros [40] {
        static B: &[u8] = concat_bytes_static!(b"ab", b"", b"cde", &[0xFFu8, 0]);
        chk!(same_all(B, b"abcde\xFF\0"), "concat_bytes_static");
        static S: &str = concat_str_static!("a\u{e9}", "", "\u{20ac}", "z",);
        chk!(same_all(S.as_bytes(), "a\u{e9}\u{20ac}z".as_bytes()), "concat_str_static");
        static E: &[u8] = concat_bytes_static!();
        chk!(E.is_empty(), "concat_bytes_static of nothing");
        reach!();
    }
    /// the const comparisons of values: eq_const, eq_slice, starts_with, ends_with on inline and borrowed values
    fn value_helpers [19] {
        let d: [u8; 17] = any_bytes();
        let e: [u8; 17] = any_bytes();
        let (n, m) = (any_in(0, 3), any_in(0, 3));
        let big = any_bool();
        let v = if big { ByteData::from_borrowed(&d) } else { ByteData::from_borrowed(&d[..n]) };
        let x: &[u8] = if big { &d } else { &d[..n] };
        let w = ByteData::from_borrowed(&e[..m]);
        chk!(v.eq_const(&w) == (x == &e[..m]), "eq_const");
        chk!(v.eq_slice(&e[..m]) == (x == &e[..m]), "eq_slice");
        chk!(v.starts_with(&e[..m]) == x.starts_with(&e[..m]), "starts_with");
        chk!(v.ends_with(&e[..m]) == x.ends_with(&e[..m]), "ends_with");
        reach!();
    }
}
