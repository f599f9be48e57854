//! C04: cutting a byte value into pieces.
use crate::sym::*;
use crate::util::*;
use bytedata::*;

const N: usize = 18;
fn top(k: u8) -> usize {
    if k == CHUNK { 14 } else { 17 }
}

/// `take_bytes` and `split_at`
#[inline(always)]
fn take(k: u8) {
    let d: [u8; N] = any_bytes();
    let n = top(k);
    let e = &d[..n];
    let mut v = mk(k, &d, 0, n);
    let p = any_in(0, n);
    let t = v.take_bytes(p);
    chk!(t.len() == p && t.is_empty() == (p == 0) && same(t.as_slice(), &e[..p]), "the part taken");
    chk!(v.len() == n - p && v.is_empty() == (p == n) && same(v.as_slice(), &e[p..]), "the part left");
    reach!();
}
#[inline(always)]
fn at(k: u8) {
    let d: [u8; N] = any_bytes();
    let n = top(k);
    let e = &d[..n];
    let v = mk(k, &d, 0, n);
    let p = any_in(0, n);
    let (a, b) = v.split_at(p);
    chk!(a.len() == p && same(a.as_slice(), &e[..p]), "first part of split_at");
    chk!(b.len() == n - p && same(b.as_slice(), &e[p..]), "second part of split_at");
    reach!();
}
/// `take_while`: the condition sees every byte once, in order, up to the first it turns down
#[inline(always)]
fn whilst(k: u8, n: usize) {
    let d: [u8; N] = any_bytes();
    let e = &d[..n];
    let mut v = mk(k, &d, 0, n);
    let p = any_in(0, n);
    let mut calls = 0;
    let mut good = true;
    let t = ByteData::take_while(&mut v, |b| {
        good &= calls < n && b == e[calls];
        calls += 1;
        calls <= p
    });
    chk!(good && calls == if p < n { p + 1 } else { n }, "calls of the condition");
    chk!(t.len() == p && same(t.as_slice(), &e[..p]), "the part taken while");
    chk!(v.len() == n - p && same(v.as_slice(), &e[p..]), "the part left after take_while");
    reach!();
}
/// `split_once_on` for a haystack of `n` bytes and a needle of `m`
#[inline(always)]
fn once(k: u8, n: usize, m: usize) {
    let d: [u8; 6] = any_bytes();
    let w: [u8; 3] = any_bytes();
    let (e, w) = (&d[..n], &w[..m]);
    let v = mk(k, &d, 0, n);
    match (v.split_once_on(w), find(e, w)) {
        (Ok((a, b)), Some(i)) => {
            chk!(a.len() == i && same(a.as_slice(), &e[..i]), "first part of split_once_on");
            chk!(b.len() == n - i && same(b.as_slice(), &e[i..]), "second part of split_once_on");
        }
        (Err(v), None) => chk!(v.len() == n && same(v.as_slice(), e), "value handed back by split_once_on"),
        _ => chk!(false, "split_once_on finds what is there"),
    }
    reach!();
}
/// `split_on`: every piece, the end, and what `size_hint` says on the way
#[inline(always)]
fn walk(v: ByteData<'_>, e: &[u8], w: &[u8]) {
    let (n, m) = (e.len(), w.len());
    let mut total = if n == 0 { 0 } else { 1 };
    let mut at = 0;
    while m > 0 && at + m <= n {
        if same_all(&e[at..at + m], w) {
            total += 1;
            at += m;
        } else {
            at += 1;
        }
    }
    let mut it = v.split_on(w);
    at = 0;
    let mut done = 0;
    while done < total {
        let h = it.size_hint();
        chk!(h.0 <= total - done && h.1.map_or(true, |u| u >= total - done), "size hint of split_on");
        let z = if m == 0 { n } else { find_after(e, w, at).unwrap_or(n) };
        match it.next() {
            Some(p) => chk!(p.len() == z - at && same_all(p.as_slice(), &e[at..z]), "a piece of split_on"),
            None => chk!(false, "split_on ends before the last piece"),
        }
        at = z + m;
        done += 1;
    }
    let h = it.size_hint();
    chk!(h.0 == 0, "size hint of split_on at the end");
    chk!(it.next().is_none() && it.next().is_none(), "split_on yields a piece after the last");
}
/// every text of `n` letters a and b
#[inline(always)]
fn on(k: u8, n: usize, w: &[u8]) {
    let c = any_in(0, (1 << n) - 1);
    let mut i = 0;
    while i < 1 << n {
        if c == i {
            let mut d = [0u8; 6];
            let mut j = 0;
            while j < n {
                d[j] = if i >> j & 1 == 1 { b'a' } else { b'b' };
                j += 1;
            }
            walk(mk(k, &d, 0, n), &d[..n], w);
            reach!();
            return;
        }
        i += 1;
    }
}
/// `next` until the value is used up
#[inline(always)]
fn iter(k: u8, n: usize) {
    let d: [u8; N] = any_bytes();
    let mut v = mk(k, &d, 1, n + 1);
    let mut i = 0;
    while i < n {
        let h = v.size_hint();
        chk!(h.0 <= n - i && h.1.map_or(true, |u| u >= n - i), "size hint of a byte value");
        chk!(v.next() == Some(d[1 + i]), "next byte");
        chk!(v.len() == n - i - 1, "length after next");
        i += 1;
    }
    chk!(v.next().is_none() && v.is_empty() && v.next().is_none(), "a value used up yields nothing");
    reach!();
}

harnesses! {
    /// take_bytes at every position of a borrowed value
    fn take_borrowed [20] { take(BORROWED); }
    fn take_chunk [20] { take(CHUNK); }
    fn take_shared [20] { take(SHARED); }
    fn take_shared_sl [20] { take(SHARED_SL); }
    fn take_ext [20] { take(EXT); }
    fn take_ext_sl [20] { take(EXT_SL); }
    /// split_at at every position
    fn at_borrowed [20] { at(BORROWED); }
    fn at_chunk [20] { at(CHUNK); }
    fn at_shared [20] { at(SHARED); }
    fn at_shared_sl [20] { at(SHARED_SL); }
    fn at_ext [20] { at(EXT); }
    fn at_ext_sl [20] { at(EXT_SL); }
    /// take_while with every outcome of the condition
    fn while_borrowed [20] { whilst(BORROWED, 17); }
    fn while_chunk [20] { whilst(CHUNK, 14); }
    fn while_shared [20] { whilst(SHARED, 4); }
    fn while_ext [20] { whilst(EXT, 15); }
    /// split_once_on: haystacks of 6 bytes, needles of 0 to 3
    fn once_m0 [8] { once(BORROWED, 6, 0); }
    fn once_m1 [8] { once(CHUNK, 6, 1); }
    fn once_m2 [8] { once(BORROWED, 6, 2); }
    fn once_m3 [8] { once(CHUNK, 6, 3); }
    fn once_short [8] { once(BORROWED, 2, 3); }
    fn once_empty [8] { once(BORROWED, 0, 1); }
    fn once_shared [8] { once(SHARED, 4, 2); }
    fn once_ext [8] { once(EXT_SL, 4, 1); }
    /// split_on: haystacks of 1 to 5 letters a and b, needles of 0 to 3
    fn on_m0 [10] {
        let d: [u8; 6] = any_bytes();
        walk(mk(BORROWED, &d, 0, 6), &d, &[]);
        reach!();
    }
    fn on_n1 [10] { on(BORROWED, 1, b"a"); }
    fn on_n3 [10] { on(BORROWED, 3, b"a"); }
    fn on_a [20] { on(BORROWED, 4, b"a"); }
    fn on_aa [20] { on(BORROWED, 4, b"aa"); }
    fn on_ab [20] { on(BORROWED, 4, b"ab"); }
    fn on_aab [20] { on(BORROWED, 4, b"aab"); }
    fn th_on_aba [36] { on(BORROWED, 5, b"aba"); }
    fn th_on_ab5 [36] { on(BORROWED, 5, b"ab"); }
    fn on_empty [10] { walk(mk(BORROWED, &[], 0, 0), &[], b"a"); walk(mk(CHUNK, &[], 0, 0), &[], &[]); reach!(); }
    fn on_chunk [10] { on(CHUNK, 3, b"a"); }
    fn on_chunk_ab [10] { on(CHUNK, 3, b"ab"); }
    fn on_ext [10] { walk(mk(EXT_SL, b"xaya", 0, 3), b"xay", b"a"); reach!(); }
    /// next until the end
    fn iter_borrowed [20] { iter(BORROWED, 15); }
    fn iter_chunk [20] { iter(CHUNK, 14); }
    fn iter_shared [20] { iter(SHARED, 3); }
    fn iter_ext [20] { iter(EXT_SL, 2); }
}
