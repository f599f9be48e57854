use crate::q::*;
use crate::sym::*;
use crate::util::{find, find_after};
use bytedata::*;

/// A queue of the given history over any bytes, with its bytes in one piece.
#[inline(always)]
fn fresh<'a>(h: &[u8], d: &'a [u8], flat: &mut [u8]) -> (ByteQueue<'a>, usize) {
    let (q, m) = build(h, d, 0, borrowed);
    let n = m.flat(d, flat);
    (q, n)
}
/// Any bytes in the queue, any bytes looked for, `l` of them; every position in `lo..=hi` on a path of its own.
#[inline(always)]
fn at(h: &[u8], l: usize, lo: usize, hi: usize, f: impl Fn(&ByteQueue<'_>, &[u8], &[u8], usize)) {
    let d: [u8; DATA] = any_bytes();
    let x: [u8; 6] = any_bytes();
    let mut flat = [0; FLAT];
    let (q, n) = fresh(h, &d, &mut flat);
    let p = any_in(lo, hi);
    reach!();
    let mut k = lo;
    while k <= hi {
        if p == k {
            f(&q, &flat[..n], &x[..l], k);
            return;
        }
        k += 1;
    }
}
fn occurs(flat: &[u8], x: &[u8], p: usize) -> bool {
    if p > flat.len() || x.len() > flat.len() - p {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < x.len() {
        ok &= flat[p + i] == x[i];
        i += 1;
    }
    ok
}
fn exists(q: &ByteQueue<'_>, flat: &[u8], x: &[u8], p: usize) {
    // the last position stands for one near the top
    let p = if p == flat.len() + 2 { usize::MAX } else { p };
    chk!(q.exists_at(p, x) == occurs(flat, x, p), "exists_at");
}
fn ends(q: &ByteQueue<'_>, flat: &[u8], x: &[u8], _: usize) {
    chk!(q.starts_with(x) == occurs(flat, x, 0), "starts_with");
    chk!(q.ends_with(x) == (x.len() <= flat.len() && occurs(flat, x, flat.len() - x.len())), "ends_with");
}
fn search(q: &ByteQueue<'_>, flat: &[u8], x: &[u8], p: usize) {
    if p == 0 {
        chk!(q.find_slice(x) == find_after(flat, x, 0), "find_slice");
    }
    chk!(q.find_slice_after(x, p) == find_after(flat, x, p), "find_slice_after");
}
fn byte(h: &[u8]) {
    let d: [u8; DATA] = any_bytes();
    let x = any_u8();
    let mut flat = [0; FLAT];
    let (q, n) = fresh(h, &d, &mut flat);
    chk!(q.find_byte(|b| b == x) == find(&flat[..n], &[x]), "find_byte");
    let mut i = 0;
    chk!(q.find_byte(|b| { chk!(b == flat[i], "bytes are asked about in order"); i += 1; false }).is_none() && i == n, "find_byte asks about every byte");
    reach!();
}

/// The pieces of `q` are those of its bytes.
#[inline(always)]
fn pieces<'a>(mut it: impl Iterator<Item = ByteQueue<'a>>, flat: &[u8], x: &[u8], max: usize) {
    let mut from = 0;
    let mut done = flat.is_empty();
    let mut left = max;
    let mut n = 0;
    while n <= flat.len() + 1 {
        let (lo, hi) = it.size_hint();
        chk!(if done { lo == 0 } else { lo <= 1 }, "lower bound on the pieces left");
        if let Some(hi) = hi {
            chk!(done || (hi >= 1 && (max != 0 || hi > 1)), "upper bound on the pieces left");
        }
        let p = it.next();
        if done {
            chk!(p.is_none(), "a piece too many");
            return;
        }
        let cut = if left == 1 || x.is_empty() { None } else { find_after(flat, x, from) };
        let to = match cut {
            Some(c) => c,
            None => {
                done = true;
                flat.len()
            }
        };
        match p {
            Some(p) => is_flat(&p, &flat[from..to]),
            None => chk!(false, "a piece is missing"),
        }
        from = to + x.len();
        if left != 0 {
            left -= 1;
        }
        n += 1;
    }
    chk!(it.next().is_none(), "the end");
}
/// Content number `k`: its bits say which bytes are 'a', the others are 'b'.
#[inline(always)]
fn content(k: usize) -> [u8; 12] {
    let mut d = [b'b'; 12];
    let mut i = 0;
    while i < 12 {
        if k >> i & 1 == 1 {
            d[i] = b'a';
        }
        i += 1;
    }
    d
}
/// The queue [1 byte, 2 bytes, 1 byte, ..] of `n` bytes with each content in `lo..=hi`, split on `x`
/// into at most `max` pieces.
#[inline(always)]
fn split_on(cuts: &[usize], x: &[u8], max: usize, lo: usize, hi: usize) {
    let p = any_in(lo, hi);
    reach!();
    let mut k = lo;
    while k <= hi {
        if p == k {
            let d = content(k);
            let mut q = ByteQueue::new();
            let mut at = 0;
            let mut i = 0;
            while i < cuts.len() {
                q.push_back(&d[at..cuts[i]]);
                at = cuts[i];
                i += 1;
            }
            if max == 0 {
                pieces(q.split_on(x), &d[..at], x, max);
            } else {
                pieces(q.splitn_on(x, max), &d[..at], x, max);
            }
            return;
        }
        k += 1;
    }
}
/// As `split_on`, searching from every start.
#[inline(always)]
fn found(cuts: &[usize], x: &[u8], lo: usize, hi: usize) {
    let p = any_in(lo, hi);
    reach!();
    let mut k = lo;
    while k <= hi {
        if p == k {
            let d = content(k);
            let mut q = ByteQueue::new();
            let mut at = 0;
            let mut i = 0;
            while i < cuts.len() {
                q.push_back(&d[at..cuts[i]]);
                at = cuts[i];
                i += 1;
            }
            let mut s = 0;
            while s <= at + 1 {
                search(&q, &d[..at], x, s);
                s += if s == 2 && !cfg!(feature = "thorough") { at - 1 } else { 1 };
            }
            chk!(q.find_slice_after(x, usize::MAX).is_none(), "find_slice_after the end");
            return;
        }
        k += 1;
    }
}
const A: &[&str] = &["a\u{e9}", "b\u{e9}\u{e9}a", "\u{e9}"];
fn text_queue<'a>(flat: &mut [u8]) -> (StringQueue<'a>, usize) {
    let mut q = StringQueue::new();
    let mut n = 0;
    let mut i = 0;
    while i < A.len() {
        q.push_back(A[i]);
        let b = A[i].as_bytes();
        let mut j = 0;
        while j < b.len() {
            flat[n] = b[j];
            n += 1;
            j += 1;
        }
        i += 1;
    }
    (q, n)
}
fn texts(x: &str, max: usize) {
    let mut flat = [0; 16];
    let (q, n) = text_queue(&mut flat);
    let k = any_in(0, 1);
    reach!();
    if k == 0 {
        if max == 0 {
            pieces(q.split_on(x).map(StringQueue::into_bytequeue), &flat[..n], x.as_bytes(), max);
        } else {
            pieces(q.splitn_on(x, max).map(StringQueue::into_bytequeue), &flat[..n], x.as_bytes(), max);
        }
        return;
    }
    if max == 0 {
        pieces(q.split_on_bytes(x.as_bytes()), &flat[..n], x.as_bytes(), max);
    } else {
        pieces(q.splitn_on_bytes(x.as_bytes(), max), &flat[..n], x.as_bytes(), max);
    }
}

harnesses! {
    /// exists: history 'bbb', 1 bytes looked for, positions 0 to 6
    fn exists_bbb_1_0 [14] { at(b"bbb", 1, 0, 6, exists); }
    /// exists: history 'bbb', 2 bytes looked for, positions 0 to 6
    fn exists_bbb_2_0 [14] { at(b"bbb", 2, 0, 6, exists); }
    /// exists: history 'bbb', 3 bytes looked for, positions 0 to 6
    fn exists_bbb_3_0 [14] { at(b"bbb", 3, 0, 6, exists); }
    /// ends: history 'bbb', 1 bytes looked for, positions 0 to 0
    fn ends_bbb_1_0 [14] { at(b"bbb", 1, 0, 0, ends); }
    /// ends: history 'bbb', 2 bytes looked for, positions 0 to 0
    fn ends_bbb_2_0 [14] { at(b"bbb", 2, 0, 0, ends); }
    /// ends: history 'bbb', 4 bytes looked for, positions 0 to 0
    fn ends_bbb_4_0 [14] { at(b"bbb", 4, 0, 0, ends); }
    /// exists: history 'bbbbb', 1 bytes looked for, positions 0 to 9
    fn exists_bbbbb_1_0 [14] { at(b"bbbbb", 1, 0, 9, exists); }
    /// exists: history 'bbbbb', 2 bytes looked for, positions 0 to 9
    fn th_exists_bbbbb_2_0 [14] { at(b"bbbbb", 2, 0, 9, exists); }
    /// exists: history 'bbbbb', 3 bytes looked for, positions 0 to 9
    fn th_exists_bbbbb_3_0 [14] { at(b"bbbbb", 3, 0, 9, exists); }
    /// ends: history 'bbbbb', 1 bytes looked for, positions 0 to 0
    fn ends_bbbbb_1_0 [14] { at(b"bbbbb", 1, 0, 0, ends); }
    /// ends: history 'bbbbb', 2 bytes looked for, positions 0 to 0
    fn ends_bbbbb_2_0 [14] { at(b"bbbbb", 2, 0, 0, ends); }
    /// ends: history 'bbbbb', 4 bytes looked for, positions 0 to 0
    fn ends_bbbbb_4_0 [14] { at(b"bbbbb", 4, 0, 0, ends); }
    /// exists: history '', 0 bytes looked for, positions 0 to 2
    fn exists_empty_0_0 [14] { at(b"", 0, 0, 2, exists); }
    /// exists: history '', 1 bytes looked for, positions 0 to 2
    fn exists_empty_1_0 [14] { at(b"", 1, 0, 2, exists); }
    /// exists: history 'bb', 0 bytes looked for, positions 0 to 5
    fn exists_bb_0_0 [14] { at(b"bb", 0, 0, 5, exists); }
    /// ends: history '', 0 bytes looked for, positions 0 to 0
    fn ends_empty_0_0 [14] { at(b"", 0, 0, 0, ends); }
    /// ends: history '', 1 bytes looked for, positions 0 to 0
    fn ends_empty_1_0 [14] { at(b"", 1, 0, 0, ends); }
    /// ends: history 'bb', 0 bytes looked for, positions 0 to 0
    fn ends_bb_0_0 [14] { at(b"bb", 0, 0, 0, ends); }
    /// ends: history 'bb', 4 bytes looked for, positions 0 to 0
    fn ends_bb_4_0 [14] { at(b"bb", 4, 0, 0, ends); }
    /// ends: history 'fff', 3 bytes looked for, positions 0 to 0
    fn ends_fff_3_0 [14] { at(b"fff", 3, 0, 0, ends); }
    /// search: history 'bb', 1 bytes looked for, positions 0 to 0
    fn th_search_bb_1_0 [14] { at(b"bb", 1, 0, 0, search); }
    /// search: history 'bb', 1 bytes looked for, positions 1 to 1
    fn th_search_bb_1_1 [14] { at(b"bb", 1, 1, 1, search); }
    /// search: history 'bb', 1 bytes looked for, positions 2 to 4
    fn th_search_bb_1_2 [14] { at(b"bb", 1, 2, 4, search); }
    /// search: history 'bb', 2 bytes looked for, positions 0 to 0
    fn th_search_bb_2_0 [14] { at(b"bb", 2, 0, 0, search); }
    /// search: history 'bb', 2 bytes looked for, positions 1 to 1
    fn search_bb_2_1 [14] { at(b"bb", 2, 1, 1, search); }
    /// search: history 'bb', 2 bytes looked for, positions 2 to 4
    fn th_search_bb_2_2 [14] { at(b"bb", 2, 2, 4, search); }
    /// search: history 'bb', 3 bytes looked for, positions 0 to 0
    fn th_search_bb_3_0 [14] { at(b"bb", 3, 0, 0, search); }
    /// search: history 'bb', 3 bytes looked for, positions 1 to 1
    fn th_search_bb_3_1 [14] { at(b"bb", 3, 1, 1, search); }
    /// search: history 'bb', 3 bytes looked for, positions 2 to 4
    fn th_search_bb_3_2 [14] { at(b"bb", 3, 2, 4, search); }
    /// find_slice and find_slice_after from everywhere, looking for 'a': chunks ending at [1, 3, 4], contents 0 to 111
    fn th_find_3_a_0 [14] { found(&[1, 3, 4], b"a", 0, 7); }
    /// find_slice and find_slice_after from everywhere, looking for 'a': chunks ending at [1, 3, 4], contents 1000 to 1111
    fn th_find_3_a_8 [14] { found(&[1, 3, 4], b"a", 8, 15); }
    /// find_slice and find_slice_after from everywhere, looking for 'ab': chunks ending at [1, 3, 4], contents 0 to 111
    fn find_3_ab_0 [14] { found(&[1, 3, 4], b"ab", 0, 7); }
    /// find_slice and find_slice_after from everywhere, looking for 'ab': chunks ending at [1, 3, 4], contents 1000 to 1111
    fn th_find_3_ab_8 [14] { found(&[1, 3, 4], b"ab", 8, 15); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 3, 4], contents 0 to 111
    fn find_3_aab_0 [14] { found(&[1, 3, 4], b"aab", 0, 7); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 3, 4], contents 1000 to 1111
    fn find_3_aab_8 [14] { found(&[1, 3, 4], b"aab", 8, 15); }
    /// find_slice and find_slice_after from everywhere, looking for 'aba': chunks ending at [1, 3, 4], contents 0 to 111
    fn th_find_3_aba_0 [14] { found(&[1, 3, 4], b"aba", 0, 7); }
    /// find_slice and find_slice_after from everywhere, looking for 'aba': chunks ending at [1, 3, 4], contents 1000 to 1111
    fn find_3_aba_8 [14] { found(&[1, 3, 4], b"aba", 8, 15); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 2, 5], contents 10000 to 10111
    fn th_find_3_aab_16 [14] { found(&[1, 2, 5], b"aab", 16, 23); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 2, 5], contents 11000 to 11111
    fn th_find_3_aab_24 [14] { found(&[1, 2, 5], b"aab", 24, 31); }
    /// find_slice and find_slice_after from everywhere, looking for 'aaba': chunks ending at [1, 2, 5], contents 10000 to 10111
    fn th_find_3_aaba_16 [14] { found(&[1, 2, 5], b"aaba", 16, 23); }
    /// find_slice and find_slice_after from everywhere, looking for 'aaba': chunks ending at [1, 2, 5], contents 11000 to 11111
    fn th_find_3_aaba_24 [14] { found(&[1, 2, 5], b"aaba", 24, 31); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 3, 4, 6], contents 0 to 111
    fn th_find_4_aab_0 [14] { found(&[1, 3, 4, 6], b"aab", 0, 7); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 3, 4, 6], contents 1000 to 1111
    fn th_find_4_aab_8 [14] { found(&[1, 3, 4, 6], b"aab", 8, 15); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 3, 4, 6], contents 10000 to 10111
    fn th_find_4_aab_16 [14] { found(&[1, 3, 4, 6], b"aab", 16, 23); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 3, 4, 6], contents 11000 to 11111
    fn th_find_4_aab_24 [14] { found(&[1, 3, 4, 6], b"aab", 24, 31); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 3, 4, 6], contents 100000 to 100111
    fn th_find_4_aab_32 [14] { found(&[1, 3, 4, 6], b"aab", 32, 39); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 3, 4, 6], contents 101000 to 101111
    fn th_find_4_aab_40 [14] { found(&[1, 3, 4, 6], b"aab", 40, 47); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 3, 4, 6], contents 110000 to 110111
    fn th_find_4_aab_48 [14] { found(&[1, 3, 4, 6], b"aab", 48, 55); }
    /// find_slice and find_slice_after from everywhere, looking for 'aab': chunks ending at [1, 3, 4, 6], contents 111000 to 111111
    fn th_find_4_aab_56 [14] { found(&[1, 3, 4, 6], b"aab", 56, 63); }
    /// find_slice and find_slice_after from everywhere, looking for 'abab': chunks ending at [1, 3, 4, 6], contents 0 to 111
    fn th_find_4_abab_0 [14] { found(&[1, 3, 4, 6], b"abab", 0, 7); }
    /// find_slice and find_slice_after from everywhere, looking for 'abab': chunks ending at [1, 3, 4, 6], contents 1000 to 1111
    fn th_find_4_abab_8 [14] { found(&[1, 3, 4, 6], b"abab", 8, 15); }
    /// find_slice and find_slice_after from everywhere, looking for 'abab': chunks ending at [1, 3, 4, 6], contents 10000 to 10111
    fn th_find_4_abab_16 [14] { found(&[1, 3, 4, 6], b"abab", 16, 23); }
    /// find_slice and find_slice_after from everywhere, looking for 'abab': chunks ending at [1, 3, 4, 6], contents 11000 to 11111
    fn th_find_4_abab_24 [14] { found(&[1, 3, 4, 6], b"abab", 24, 31); }
    /// find_slice and find_slice_after from everywhere, looking for 'abab': chunks ending at [1, 3, 4, 6], contents 100000 to 100111
    fn th_find_4_abab_32 [14] { found(&[1, 3, 4, 6], b"abab", 32, 39); }
    /// find_slice and find_slice_after from everywhere, looking for 'abab': chunks ending at [1, 3, 4, 6], contents 101000 to 101111
    fn th_find_4_abab_40 [14] { found(&[1, 3, 4, 6], b"abab", 40, 47); }
    /// find_slice and find_slice_after from everywhere, looking for 'abab': chunks ending at [1, 3, 4, 6], contents 110000 to 110111
    fn th_find_4_abab_48 [14] { found(&[1, 3, 4, 6], b"abab", 48, 55); }
    /// find_slice and find_slice_after from everywhere, looking for 'abab': chunks ending at [1, 3, 4, 6], contents 111000 to 111111
    fn th_find_4_abab_56 [14] { found(&[1, 3, 4, 6], b"abab", 56, 63); }
    /// find_slice and find_slice_after from everywhere, looking for 'aa': chunks ending at [1, 3, 4, 6], contents 0 to 111
    fn th_find_4_aa_0 [14] { found(&[1, 3, 4, 6], b"aa", 0, 7); }
    /// find_slice and find_slice_after from everywhere, looking for 'aa': chunks ending at [1, 3, 4, 6], contents 1000 to 1111
    fn th_find_4_aa_8 [14] { found(&[1, 3, 4, 6], b"aa", 8, 15); }
    /// find_slice and find_slice_after from everywhere, looking for 'aa': chunks ending at [1, 3, 4, 6], contents 10000 to 10111
    fn th_find_4_aa_16 [14] { found(&[1, 3, 4, 6], b"aa", 16, 23); }
    /// find_slice and find_slice_after from everywhere, looking for 'aa': chunks ending at [1, 3, 4, 6], contents 11000 to 11111
    fn th_find_4_aa_24 [14] { found(&[1, 3, 4, 6], b"aa", 24, 31); }
    /// find_slice and find_slice_after from everywhere, looking for 'aa': chunks ending at [1, 3, 4, 6], contents 100000 to 100111
    fn th_find_4_aa_32 [14] { found(&[1, 3, 4, 6], b"aa", 32, 39); }
    /// find_slice and find_slice_after from everywhere, looking for 'aa': chunks ending at [1, 3, 4, 6], contents 101000 to 101111
    fn th_find_4_aa_40 [14] { found(&[1, 3, 4, 6], b"aa", 40, 47); }
    /// find_slice and find_slice_after from everywhere, looking for 'aa': chunks ending at [1, 3, 4, 6], contents 110000 to 110111
    fn th_find_4_aa_48 [14] { found(&[1, 3, 4, 6], b"aa", 48, 55); }
    /// find_slice and find_slice_after from everywhere, looking for 'aa': chunks ending at [1, 3, 4, 6], contents 111000 to 111111
    fn th_find_4_aa_56 [14] { found(&[1, 3, 4, 6], b"aa", 56, 63); }
    /// search: history 'bb', 0 bytes looked for, positions 0 to 5
    fn search_bb_0_0 [14] { at(b"bb", 0, 0, 5, search); }
    /// search: history '', 1 bytes looked for, positions 0 to 1
    fn search_empty_1_0 [14] { at(b"", 1, 0, 1, search); }
    /// search: history '', 0 bytes looked for, positions 0 to 1
    fn search_empty_0_0 [14] { at(b"", 0, 0, 1, search); }
    /// search: history 'bbbb', 2 bytes looked for, positions 0 to 0
    fn th_search_bbbb_2_0 [14] { at(b"bbbb", 2, 0, 0, search); }
    /// search: history 'bbbbb', 4 bytes looked for, positions 0 to 1
    fn th_search_bbbbb_4_0 [14] { at(b"bbbbb", 4, 0, 1, search); }
    /// exists: history 'bbbPPbb', 3 bytes looked for, positions 0 to 8
    fn th_exists_bbbPPbb_3_0 [14] { at(b"bbbPPbb", 3, 0, 8, exists); }
    /// find_byte, history 'bbb'
    fn byte_bbb [14] { byte(b"bbb"); }
    /// find_byte, history 'bbPQfb'
    fn byte_bbPQfb [14] { byte(b"bbPQfb"); }
    /// find_byte, the empty queue
    fn byte_empty [14] { byte(b""); }
    /// split into at most any number of pieces on 'a': chunks ending at [1, 3, 4], contents 0 to 11
    fn th_split_q_a_0_0 [14] { split_on(&[1, 3, 4], b"a", 0, 0, 3); }
    /// split into at most any number of pieces on 'ab': chunks ending at [1, 3, 4], contents 0 to 11
    fn split_q_ab_0_0 [14] { split_on(&[1, 3, 4], b"ab", 0, 0, 3); }
    /// split into at most any number of pieces on 'aa': chunks ending at [1, 3, 4], contents 0 to 11
    fn th_split_q_aa_0_0 [14] { split_on(&[1, 3, 4], b"aa", 0, 0, 3); }
    /// split into at most any number of pieces on 'a': chunks ending at [1, 3, 4], contents 100 to 111
    fn split_q_a_0_4 [14] { split_on(&[1, 3, 4], b"a", 0, 4, 7); }
    /// split into at most any number of pieces on 'ab': chunks ending at [1, 3, 4], contents 100 to 111
    fn split_q_ab_0_4 [14] { split_on(&[1, 3, 4], b"ab", 0, 4, 7); }
    /// split into at most any number of pieces on 'aa': chunks ending at [1, 3, 4], contents 100 to 111
    fn split_q_aa_0_4 [14] { split_on(&[1, 3, 4], b"aa", 0, 4, 7); }
    /// split into at most any number of pieces on 'a': chunks ending at [1, 3, 4], contents 1000 to 1011
    fn th_split_q_a_0_8 [14] { split_on(&[1, 3, 4], b"a", 0, 8, 11); }
    /// split into at most any number of pieces on 'ab': chunks ending at [1, 3, 4], contents 1000 to 1011
    fn split_q_ab_0_8 [14] { split_on(&[1, 3, 4], b"ab", 0, 8, 11); }
    /// split into at most any number of pieces on 'aa': chunks ending at [1, 3, 4], contents 1000 to 1011
    fn th_split_q_aa_0_8 [14] { split_on(&[1, 3, 4], b"aa", 0, 8, 11); }
    /// split into at most any number of pieces on 'a': chunks ending at [1, 3, 4], contents 1100 to 1111
    fn split_q_a_0_12 [14] { split_on(&[1, 3, 4], b"a", 0, 12, 15); }
    /// split into at most any number of pieces on 'ab': chunks ending at [1, 3, 4], contents 1100 to 1111
    fn split_q_ab_0_12 [14] { split_on(&[1, 3, 4], b"ab", 0, 12, 15); }
    /// split into at most any number of pieces on 'aa': chunks ending at [1, 3, 4], contents 1100 to 1111
    fn split_q_aa_0_12 [14] { split_on(&[1, 3, 4], b"aa", 0, 12, 15); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4], contents 101 to 101
    fn split_q_aba_0_5 [14] { split_on(&[1, 3, 4], b"aba", 0, 5, 5); }
    /// split into at most 1 pieces on 'b': chunks ending at [1, 3, 4], contents 101 to 110
    fn split_q_b_1_5 [14] { split_on(&[1, 3, 4], b"b", 1, 5, 6); }
    /// split into at most 2 pieces on 'a': chunks ending at [1, 3, 4], contents 101 to 111
    fn split_q_a_2_5 [14] { split_on(&[1, 3, 4], b"a", 2, 5, 7); }
    /// split into at most 3 pieces on 'a': chunks ending at [1, 3, 4], contents 1111 to 1111
    fn split_q_a_3_15 [14] { split_on(&[1, 3, 4], b"a", 3, 15, 15); }
    /// split into at most 2 pieces on 'ab': chunks ending at [1, 3, 4], contents 101 to 101
    fn split_q_ab_2_5 [14] { split_on(&[1, 3, 4], b"ab", 2, 5, 5); }
    /// split into at most any number of pieces on '': chunks ending at [1, 3, 4], contents 101 to 101
    fn split_q_none_0_5 [14] { split_on(&[1, 3, 4], b"", 0, 5, 5); }
    /// split into at most 2 pieces on '': chunks ending at [1, 3, 4], contents 101 to 101
    fn split_q_none_2_5 [14] { split_on(&[1, 3, 4], b"", 2, 5, 5); }
    /// split into at most any number of pieces on 'a': chunks ending at [], contents 0 to 0
    fn split_none_a_0_0 [14] { split_on(&[], b"a", 0, 0, 0); }
    /// split into at most any number of pieces on '': chunks ending at [], contents 0 to 0
    fn split_none_none_0_0 [14] { split_on(&[], b"", 0, 0, 0); }
    /// split into at most any number of pieces on 'a': chunks ending at [2], contents 0 to 11
    fn split_one_a_0_0 [14] { split_on(&[2], b"a", 0, 0, 3); }
    /// split into at most any number of pieces on 'abab': chunks ending at [1, 3, 4], contents 101 to 101
    fn split_q_abab_0_5 [14] { split_on(&[1, 3, 4], b"abab", 0, 5, 5); }
    /// split into at most any number of pieces on 'ababab': chunks ending at [1, 3, 4], contents 101 to 101
    fn split_q_ababab_0_5 [14] { split_on(&[1, 3, 4], b"ababab", 0, 5, 5); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 0 to 11
    fn th_split_l_aab_0_0 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 0, 3); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 0 to 11
    fn th_split_l_aba_0_0 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 0, 3); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 100 to 111
    fn th_split_l_aab_0_4 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 4, 7); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 100 to 111
    fn th_split_l_aba_0_4 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 4, 7); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 1000 to 1011
    fn th_split_l_aab_0_8 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 8, 11); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 1000 to 1011
    fn th_split_l_aba_0_8 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 8, 11); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 1100 to 1111
    fn th_split_l_aab_0_12 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 12, 15); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 1100 to 1111
    fn th_split_l_aba_0_12 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 12, 15); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 10000 to 10011
    fn th_split_l_aab_0_16 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 16, 19); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 10000 to 10011
    fn th_split_l_aba_0_16 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 16, 19); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 10100 to 10111
    fn th_split_l_aab_0_20 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 20, 23); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 10100 to 10111
    fn th_split_l_aba_0_20 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 20, 23); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 11000 to 11011
    fn th_split_l_aab_0_24 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 24, 27); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 11000 to 11011
    fn th_split_l_aba_0_24 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 24, 27); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 11100 to 11111
    fn th_split_l_aab_0_28 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 28, 31); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 11100 to 11111
    fn th_split_l_aba_0_28 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 28, 31); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 100000 to 100011
    fn th_split_l_aab_0_32 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 32, 35); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 100000 to 100011
    fn th_split_l_aba_0_32 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 32, 35); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 100100 to 100111
    fn th_split_l_aab_0_36 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 36, 39); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 100100 to 100111
    fn th_split_l_aba_0_36 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 36, 39); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 101000 to 101011
    fn th_split_l_aab_0_40 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 40, 43); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 101000 to 101011
    fn th_split_l_aba_0_40 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 40, 43); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 101100 to 101111
    fn th_split_l_aab_0_44 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 44, 47); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 101100 to 101111
    fn th_split_l_aba_0_44 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 44, 47); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 110000 to 110011
    fn th_split_l_aab_0_48 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 48, 51); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 110000 to 110011
    fn th_split_l_aba_0_48 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 48, 51); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 110100 to 110111
    fn th_split_l_aab_0_52 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 52, 55); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 110100 to 110111
    fn th_split_l_aba_0_52 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 52, 55); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 111000 to 111011
    fn th_split_l_aab_0_56 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 56, 59); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 111000 to 111011
    fn th_split_l_aba_0_56 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 56, 59); }
    /// split into at most any number of pieces on 'aab': chunks ending at [1, 3, 4, 6], contents 111100 to 111111
    fn th_split_l_aab_0_60 [14] { split_on(&[1, 3, 4, 6], b"aab", 0, 60, 63); }
    /// split into at most any number of pieces on 'aba': chunks ending at [1, 3, 4, 6], contents 111100 to 111111
    fn th_split_l_aba_0_60 [14] { split_on(&[1, 3, 4, 6], b"aba", 0, 60, 63); }
    /// split into at most 1 pieces on 'a': chunks ending at [1, 3, 4], contents 0 to 11
    fn th_split_l_a_1_0 [14] { split_on(&[1, 3, 4], b"a", 1, 0, 3); }
    /// split into at most 2 pieces on 'a': chunks ending at [1, 3, 4], contents 0 to 11
    fn th_split_l_a_2_0 [14] { split_on(&[1, 3, 4], b"a", 2, 0, 3); }
    /// split into at most 3 pieces on 'a': chunks ending at [1, 3, 4], contents 0 to 11
    fn th_split_l_a_3_0 [14] { split_on(&[1, 3, 4], b"a", 3, 0, 3); }
    /// split into at most 1 pieces on 'ab': chunks ending at [1, 3, 4], contents 0 to 11
    fn th_split_l_ab_1_0 [14] { split_on(&[1, 3, 4], b"ab", 1, 0, 3); }
    /// split into at most 2 pieces on 'ab': chunks ending at [1, 3, 4], contents 0 to 11
    fn th_split_l_ab_2_0 [14] { split_on(&[1, 3, 4], b"ab", 2, 0, 3); }
    /// split into at most 3 pieces on 'ab': chunks ending at [1, 3, 4], contents 0 to 11
    fn th_split_l_ab_3_0 [14] { split_on(&[1, 3, 4], b"ab", 3, 0, 3); }
    /// split into at most 1 pieces on 'a': chunks ending at [1, 3, 4], contents 100 to 111
    fn th_split_l_a_1_4 [14] { split_on(&[1, 3, 4], b"a", 1, 4, 7); }
    /// split into at most 2 pieces on 'a': chunks ending at [1, 3, 4], contents 100 to 111
    fn th_split_l_a_2_4 [14] { split_on(&[1, 3, 4], b"a", 2, 4, 7); }
    /// split into at most 3 pieces on 'a': chunks ending at [1, 3, 4], contents 100 to 111
    fn th_split_l_a_3_4 [14] { split_on(&[1, 3, 4], b"a", 3, 4, 7); }
    /// split into at most 1 pieces on 'ab': chunks ending at [1, 3, 4], contents 100 to 111
    fn th_split_l_ab_1_4 [14] { split_on(&[1, 3, 4], b"ab", 1, 4, 7); }
    /// split into at most 2 pieces on 'ab': chunks ending at [1, 3, 4], contents 100 to 111
    fn th_split_l_ab_2_4 [14] { split_on(&[1, 3, 4], b"ab", 2, 4, 7); }
    /// split into at most 3 pieces on 'ab': chunks ending at [1, 3, 4], contents 100 to 111
    fn th_split_l_ab_3_4 [14] { split_on(&[1, 3, 4], b"ab", 3, 4, 7); }
    /// split into at most 1 pieces on 'a': chunks ending at [1, 3, 4], contents 1000 to 1011
    fn th_split_l_a_1_8 [14] { split_on(&[1, 3, 4], b"a", 1, 8, 11); }
    /// split into at most 2 pieces on 'a': chunks ending at [1, 3, 4], contents 1000 to 1011
    fn th_split_l_a_2_8 [14] { split_on(&[1, 3, 4], b"a", 2, 8, 11); }
    /// split into at most 3 pieces on 'a': chunks ending at [1, 3, 4], contents 1000 to 1011
    fn th_split_l_a_3_8 [14] { split_on(&[1, 3, 4], b"a", 3, 8, 11); }
    /// split into at most 1 pieces on 'ab': chunks ending at [1, 3, 4], contents 1000 to 1011
    fn th_split_l_ab_1_8 [14] { split_on(&[1, 3, 4], b"ab", 1, 8, 11); }
    /// split into at most 2 pieces on 'ab': chunks ending at [1, 3, 4], contents 1000 to 1011
    fn th_split_l_ab_2_8 [14] { split_on(&[1, 3, 4], b"ab", 2, 8, 11); }
    /// split into at most 3 pieces on 'ab': chunks ending at [1, 3, 4], contents 1000 to 1011
    fn th_split_l_ab_3_8 [14] { split_on(&[1, 3, 4], b"ab", 3, 8, 11); }
    /// split into at most 1 pieces on 'a': chunks ending at [1, 3, 4], contents 1100 to 1111
    fn th_split_l_a_1_12 [14] { split_on(&[1, 3, 4], b"a", 1, 12, 15); }
    /// split into at most 2 pieces on 'a': chunks ending at [1, 3, 4], contents 1100 to 1111
    fn th_split_l_a_2_12 [14] { split_on(&[1, 3, 4], b"a", 2, 12, 15); }
    /// split into at most 3 pieces on 'a': chunks ending at [1, 3, 4], contents 1100 to 1111
    fn th_split_l_a_3_12 [14] { split_on(&[1, 3, 4], b"a", 3, 12, 15); }
    /// split into at most 1 pieces on 'ab': chunks ending at [1, 3, 4], contents 1100 to 1111
    fn th_split_l_ab_1_12 [14] { split_on(&[1, 3, 4], b"ab", 1, 12, 15); }
    /// split into at most 2 pieces on 'ab': chunks ending at [1, 3, 4], contents 1100 to 1111
    fn th_split_l_ab_2_12 [14] { split_on(&[1, 3, 4], b"ab", 2, 12, 15); }
    /// split into at most 3 pieces on 'ab': chunks ending at [1, 3, 4], contents 1100 to 1111
    fn th_split_l_ab_3_12 [14] { split_on(&[1, 3, 4], b"ab", 3, 12, 15); }
    /// text queue, split on a character that straddles nothing, or is preceded by its first byte
    fn texts_char [14] { texts("\u{e9}", 0); }
    fn texts_pair [14] { texts("\u{e9}b", 0); }
    fn texts_limit [14] { texts("\u{e9}", 2); }
    fn texts_miss [14] { texts("\u{e8}", 0); }
    /// starts_with and ends_with of a text queue
    fn texts_ends [14] {
        let mut flat = [0; 16];
        let (q, n) = text_queue(&mut flat);
        let x: [u8; 4] = any_bytes();
        let k = any_in(0, 4);
        reach!();
        split(k, 4, |k| {
            chk!(q.starts_with(&x[..k]) == occurs(&flat[..n], &x[..k], 0), "starts_with");
            chk!(q.ends_with(&x[..k]) == occurs(&flat[..n], &x[..k], n - k), "ends_with");
        });
    }
}
