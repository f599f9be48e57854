//! C20: the input traits of nom, next to nom's own implementations for slices and str.
use crate::q::{borrowed, build, is_flat, DATA, FLAT};
use crate::sym::*;
use crate::t::*;
use crate::util::*;
use bytedata::*;
use nom_7::error::{Error, ErrorKind};
use nom_7::*;

/// The same outcome, on values `eq` finds to be equal.
#[inline(always)]
fn agree<I, S: Copy, F: Fn(&I, S) -> bool>(r: IResult<I, I, Error<I>>, w: IResult<S, S, Error<S>>, eq: F) {
    match (r, w) {
        (Ok((a, b)), Ok((c, d))) => chk!(eq(&a, c) && eq(&b, d), "rest and taken"),
        (Err(Err::Incomplete(a)), Err(Err::Incomplete(b))) => chk!(a == b, "needed"),
        (Err(Err::Error(a)), Err(Err::Error(b))) => chk!(eq(&a.input, b.input) && a.code == b.code, "error"),
        (Err(Err::Failure(a)), Err(Err::Failure(b))) => chk!(eq(&a.input, b.input) && a.code == b.code, "failure"),
        _ => chk!(false, "outcome"),
    }
}
#[inline(always)]
fn cut<I: InputTakeAtPosition, P: Fn(I::Item) -> bool>(v: &I, k: usize, p: P) -> IResult<I, I, Error<I>> {
    match k {
        0 => v.split_at_position(p),
        1 => v.split_at_position1(p, ErrorKind::Alpha),
        2 => v.split_at_position_complete(p),
        _ => v.split_at_position1_complete(p, ErrorKind::Digit),
    }
}
fn deq(a: &ByteData<'_>, b: &[u8]) -> bool {
    holds(a, b)
}
fn teq(a: &StringData<'_>, b: &str) -> bool {
    a.len() == b.len() && same(a.as_bytes(), b.as_bytes())
}
fn qeq(a: &ByteQueue<'_>, b: &[u8]) -> bool {
    is_flat(a, b);
    true
}
fn sqeq(a: &StringQueue<'_>, b: &str) -> bool {
    is_flat(a.as_bytequeue(), b.as_bytes());
    true
}
fn st(d: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(d) }
}
/// `body` for each number in `0..=max`, fixed on each path
#[inline(always)]
fn each<F: FnMut(usize)>(max: usize, mut f: F) {
    let n = any_in(0, max);
    let mut i = 0;
    while i <= max {
        if n == i {
            f(i);
            return;
        }
        i += 1;
    }
}

/// splitting at the first byte that is some `x`, in any content
#[inline(always)]
fn data_cut(k: u8, op: usize) {
    let d: [u8; 3] = any_bytes();
    let x = any_u8();
    each(1, |i| {
        let n = 3 * i;
        let v = mk(k, &d, 0, n);
        agree(cut(&v, op, |b| b == x), cut(&&d[..n], op, |b| b == x), deq);
        chk!(holds(&v, &d[..n]), "the input is unchanged");
        reach!();
    });
}
/// the same in a text of the given first bytes: the first character that is `x`
#[inline(always)]
fn text_cut(k: u8, l: &[u8], op: usize) {
    let mut d: [u8; 8] = any_bytes();
    let n = leads(l, &mut d);
    let x = any_char();
    let v = unsafe { StringData::from_bytedata_unchecked(mk(k, &d, 0, n)) };
    agree(cut(&v, op, |c| c == x), cut(&st(&d[..n]), op, |c| c == x), teq);
    reach!();
}
/// Bytes that all differ.
const DIFF: [u8; DATA] = {
    let mut d = [0; DATA];
    let mut i = 0;
    while i < DATA {
        d[i] = i as u8 + 1;
        i += 1;
    }
    d
};
/// splitting a queue at any place, or none
#[inline(always)]
fn queue_cut(h: &[u8], op: usize, on: fn(usize) -> bool) {
    let mut flat = [0; FLAT];
    let (q, m) = build(h, &DIFF, 0, borrowed);
    let n = m.flat(&DIFF, &mut flat);
    let p = any_in(0, n);
    let mut i = 0;
    while i <= n {
        if !on(i) {
            assume(p != i);
        } else if p == i {
            let x = if i < n { flat[i] } else { 0 };
            agree(cut(&q, op, |b| b == x), cut(&&flat[..n], op, |b| b == x), qeq);
            is_flat(&q, &flat[..n]);
            reach!();
            return;
        }
        i += 1;
    }
}
/// splitting a text queue before any character, or none
#[inline(always)]
fn squeue_cut(c: &[&str], op: usize, on: fn(usize) -> bool) {
    let mut q = StringQueue::new();
    let mut all = [0; 16];
    let mut n = 0;
    let mut i = 0;
    while i < c.len() {
        q.push_back(unsafe { core::mem::transmute::<&str, &'static str>(c[i]) });
        all[n..n + c[i].len()].copy_from_slice(c[i].as_bytes());
        n += c[i].len();
        i += 1;
    }
    let p = any_in(0, n);
    let mut i = 0;
    while i <= n {
        if i < n && all[i] & 0xC0 == 0x80 || !on(i) {
            assume(p != i);
        } else if p == i {
            let x = cp(&all[i..n]);
            agree(cut(&q, op, |b| b as u32 == x), cut(&st(&all[..n]), op, |b| b as u32 == x), sqeq);
            sqeq(&q, st(&all[..n]));
            reach!();
            return;
        }
        i += 1;
    }
}
/// input_len, take, take_split and slice, at any places
macro_rules! takes {
    ($v:expr, $w:expr, $n:expr, $eq:ident, $ok:expr) => {{
        let v = $v;
        let n = $n;
        chk!(v.input_len() == n, "input_len");
        let op = any_in(0, 5);
        let p = any_in(0, n);
        let mut i = 0;
        while i <= n {
            if !$ok(i) {
                assume(p != i);
            } else if p == i {
                match op {
                    0 => chk!($eq(&InputTake::take(&v, i), InputTake::take(&$w, i)), "take"),
                    1 => {
                        let (a, b) = v.take_split(i);
                        let (c, d) = InputTake::take_split(&$w, i);
                        chk!($eq(&a, c) && $eq(&b, d), "take_split");
                    }
                    2 => chk!($eq(&nom_7::Slice::slice(&v, i..), nom_7::Slice::slice(&$w, i..)), "slice from"),
                    3 => chk!($eq(&nom_7::Slice::slice(&v, ..i), nom_7::Slice::slice(&$w, ..i)), "slice to"),
                    4 => chk!($eq(&nom_7::Slice::slice(&v, i..n), nom_7::Slice::slice(&$w, i..n)), "slice"),
                    _ => chk!($eq(&nom_7::Slice::slice(&v, ..), nom_7::Slice::slice(&$w, ..)), "slice all"),
                }
                reach!();
                return;
            }
            i += 1;
        }
    }};
}
/// iterating, and counting items, next to nom's own
macro_rules! iters {
    ($v:expr, $w:expr, $max:literal) => {{
        let v = $v;
        let w = $w;
        let mut a = v.iter_indices();
        let mut b = w.iter_indices();
        let mut i = 0;
        while i <= $max {
            chk!(Iterator::next(&mut a) == Iterator::next(&mut b), "iter_indices");
            i += 1;
        }
        let mut a = v.iter_elements();
        let mut b = w.iter_elements();
        let mut i = 0;
        while i <= $max {
            chk!(Iterator::next(&mut a) == Iterator::next(&mut b), "iter_elements");
            i += 1;
        }
        reach!();
    }};
}
fn cmp(r: CompareResult) -> u8 {
    match r {
        CompareResult::Ok => 0,
        CompareResult::Incomplete => 1,
        CompareResult::Error => 2,
    }
}
/// comparing with any tag
macro_rules! compares {
    ($v:expr, $w:expr, $t:expr) => {{
        chk!(cmp(Compare::compare(&$v, $t)) == cmp(Compare::compare(&$w, $t)), "compare");
        chk!(cmp(Compare::compare_no_case(&$v, $t)) == cmp(Compare::compare_no_case(&$w, $t)), "compare_no_case");
    }};
}
/// The queue of history `h` and its bytes.
macro_rules! queue_of {
    ($h:literal, $d:ident, $q:ident, $w:ident) => {
        let $d: [u8; DATA] = any_bytes();
        let mut flat = [0; FLAT];
        let ($q, m) = build($h, &$d, 0, borrowed);
        let n = m.flat(&$d, &mut flat);
        let $w = &flat[..n];
    };
}
const PIECES: [&[u8]; 3] = [&[ASC], &[0xC3], &[ASC]];
macro_rules! squeue_of {
    ($c:expr, $q:ident, $w:ident) => {
        let mut d: [u8; 12] = any_bytes();
        let n = fill($c, &mut d);
        let $q = queue(&d, $c);
        let $w = st(&d[..n]);
    };
}

harnesses! {
    /// the four ways to split at a predicate: any 3 bytes, any byte looked for
    fn cut_data [8] { data_cut(BORROWED, 0); }
    fn cut_data1 [8] { data_cut(BORROWED, 1); }
    fn cut_data_complete [8] { data_cut(BORROWED, 2); }
    fn cut_data1_complete [8] { data_cut(BORROWED, 3); }
    fn cut_chunk [8] { data_cut(CHUNK, 0); }
    fn th_cut_chunk1 [8] { data_cut(CHUNK, 1); }
    fn cut_chunk_complete [8] { data_cut(CHUNK, 2); }
    fn th_cut_chunk1_complete [8] { data_cut(CHUNK, 3); }
    /// in texts: any character looked for
    fn cut_text [8] { text_cut(BORROWED, &[ASC, 0xE2], 0); }
    fn th_cut_text1 [8] { text_cut(BORROWED, &[0xC3, ASC], 1); }
    fn cut_text_complete [8] { text_cut(BORROWED, &[0xC3, ASC], 2); }
    fn cut_text1_complete [8] { text_cut(BORROWED, &[0xF0, ASC], 3); }
    fn th_cut_text_inline [8] { text_cut(CHUNK, &[0xC3, ASC], 0); }
    fn cut_text_none [8] { each(3, |k| { text_cut(BORROWED, &[], k); }); }
    /// in queues: at every place, content fixed
    fn cut_queue [14] { queue_cut(b"bbb", 0, |_| true); }
    fn th_cut_queue1_first [14] { queue_cut(b"bb", 1, |i| i == 0); }
    fn cut_queue1 [14] { queue_cut(b"bbb", 1, |i| i == 1 || i == 2); }
    fn cut_queue1_none [14] { queue_cut(b"bbb", 1, |i| i == 4); }
    fn cut_queue_complete [14] { queue_cut(b"bbb", 2, |_| true); }
    fn th_cut_queue1_complete_first [14] { queue_cut(b"b", 3, |i| i == 0); }
    fn cut_queue1_complete [14] { queue_cut(b"bbb", 3, |i| i == 1 || i == 3); }
    fn cut_queue1_complete_none [14] { queue_cut(b"bbb", 3, |i| i == 4); }
    fn cut_queue_empty [14] { each(3, |k| { queue_cut(b"", k, |_| true); }); }
    fn th_cut_queue_wrap [14] { queue_cut(b"bbPfb", 0, |_| true); }
    fn cut_squeue [14] { squeue_cut(&["a\u{e9}", "\u{20ac}b"], 0, |_| true); }
    fn cut_squeue1 [14] { squeue_cut(&["\u{e9}", "", "\u{1F600}", "b"], 1, |i| i == 2); }
    fn cut_squeue1_first [14] { squeue_cut(&["\u{e9}b"], 1, |i| i == 0); }
    fn cut_squeue1_none [14] { squeue_cut(&["\u{e9}", "b"], 1, |i| i == 3); }
    fn cut_squeue_complete [14] { squeue_cut(&["a\u{e9}", "\u{20ac}b"], 2, |_| true); }
    fn cut_squeue1_complete [14] { squeue_cut(&["a\u{e9}", "\u{20ac}b"], 3, |i| i == 3); }
    fn cut_squeue1_complete_first [14] { squeue_cut(&["a\u{e9}"], 3, |i| i == 0); }
    fn cut_squeue1_complete_none [14] { squeue_cut(&["a\u{e9}", "b"], 3, |i| i == 4); }
    fn cut_squeue_empty [14] { each(3, |k| { squeue_cut(&[], k, |_| true); }); }
    /// input_len, take, take_split, slice
    fn take_data [8] { let d: [u8; 3] = any_bytes(); takes!(mk(BORROWED, &d, 0, 3), &d[..], 3, deq, |_: usize| true); }
    fn take_chunk [8] { let d: [u8; 3] = any_bytes(); takes!(mk(CHUNK, &d, 0, 3), &d[..], 3, deq, |_: usize| true); }
    fn take_text [8] { let mut d: [u8; 8] = any_bytes(); let n = leads(&[ASC, 0xE2, 0xC3], &mut d); let d = &d; takes!(unsafe { StringData::from_bytedata_unchecked(mk(BORROWED, d, 0, 6)) }, st(&d[..n]), 6, teq, |i: usize| d[i] & 0xC0 != 0x80 || i == 6); }
    fn take_queue [14] { queue_of!(b"bbb", d, q, w); takes!(q, w, 4, qeq, |_: usize| true); }
    fn take_squeue [14] { squeue_of!(&PIECES, q, w); takes!(q, w, 4, sqeq, |i: usize| i != 2); }
    /// iter_indices, iter_elements
    fn iter_data [8] { let d: [u8; 3] = any_bytes(); iters!(mk(BORROWED, &d, 0, 3), &d[..], 3); }
    fn iter_text [8] { let mut d: [u8; 8] = any_bytes(); let n = leads(&[0xC3], &mut d); iters!(unsafe { StringData::from_bytedata_unchecked(mk(BORROWED, &d, 0, n)) }, st(&d[..n]), 2); }
    fn iter_queue [14] { queue_of!(b"bbb", d, q, w); iters!(q, w, 4); }
    fn iter_squeue [14] { squeue_of!(&PIECES, q, w); iters!(q, w, 3); }
    /// position and slice_index
    fn pos_data [8] { let d: [u8; 3] = any_bytes(); let x = any_u8(); let c = any_usize(); let v = mk(CHUNK, &d, 0, 3); chk!(InputIter::position(&v, |b| b == x) == InputIter::position(&&d[..], |b| b == x), "position"); chk!(v.slice_index(c) == (&d[..]).slice_index(c), "slice_index"); reach!(); }
    fn pos_text [8] { let mut d: [u8; 8] = any_bytes(); let n = leads(&[ASC, 0xE2, 0xC3], &mut d); let w = st(&d[..n]); let x = any_char(); let c = any_usize(); let v = unsafe { StringData::from_bytedata_unchecked(mk(BORROWED, &d, 0, n)) }; chk!(InputIter::position(&v, |b| b == x) == InputIter::position(&w, |b| b == x), "position"); chk!(v.slice_index(c) == w.slice_index(c), "slice_index"); reach!(); }
    fn pos_queue [14] { queue_of!(b"bbb", d, q, w); let x = any_u8(); let c = any_usize(); chk!(InputIter::position(&q, |b| b == x) == InputIter::position(&w, |b| b == x), "position"); chk!(q.slice_index(c) == w.slice_index(c), "slice_index"); reach!(); }
    fn pos_squeue [14] { squeue_of!(&PIECES, q, w); let x = any_char(); chk!(InputIter::position(&q, |b| b == x) == InputIter::position(&w, |b| b == x), "position"); reach!(); }
    fn idx_squeue [14] { squeue_of!(&PIECES, q, w); let c = any_usize(); chk!(q.slice_index(c) == w.slice_index(c), "slice_index"); reach!(); }
    /// compare and compare_no_case with any tag of up to 4 bytes, in any form
    fn cmp_data [8] { let d: [u8; 3] = any_bytes(); let t: [u8; 4] = any_bytes(); let n = any_in(0, 4); let v = mk(BORROWED, &d, 0, 3); compares!(v, &d[..], &t[..n]); reach!(); }
    fn cmp_data_data [8] { let d: [u8; 3] = any_bytes(); let t: [u8; 4] = any_bytes(); let n = any_in(0, 4); let v = mk(CHUNK, &d, 0, 3); let y = mk(BORROWED, &t, 0, n); chk!(cmp(Compare::compare(&v, &y)) == cmp(Compare::compare(&&d[..], &t[..n])), "compare"); chk!(cmp(Compare::compare_no_case(&v, y)) == cmp(Compare::compare_no_case(&&d[..], &t[..n])), "compare_no_case"); reach!(); }
    fn cmp_text [8] { let d: [u8; 3] = any_bytes(); let t: [u8; 4] = any_bytes(); let n = any_in(0, 4); let w = text(&d); let v = StringData::from_borrowed(w); chk!(cmp(Compare::compare(&v, &t[..n])) == cmp(Compare::compare(&w.as_bytes(), &t[..n])), "compare"); reach!(); }
    fn cmp_queue [14] { queue_of!(b"bbb", d, q, w); let t: [u8; 5] = any_bytes(); each(5, |n| { compares!(q, w, &t[..n]); reach!(); }); }
    fn cmp_queue_none [14] { let t: [u8; 2] = any_bytes(); each(2, |n| { compares!(ByteQueue::new(), &[][..], &t[..n]); reach!(); }); }
    fn cmp_squeue [14] { squeue_of!(&PIECES, q, w); let t: [u8; 5] = any_bytes(); each(5, |n| { chk!(cmp(Compare::compare(&q, &t[..n])) == cmp(Compare::compare(&w.as_bytes(), &t[..n])), "compare"); reach!(); }); }
    /// find_token and find_substring (for values in one piece, the searches over bytes are the memchr crate's, which is beyond the encoding)
    fn find_text [8] { let mut d: [u8; 8] = any_bytes(); let n = leads(&[ASC, 0xE2, 0xC3], &mut d); let w = st(&d[..n]); let x = any_char(); let v = StringData::from_borrowed(w); chk!(v.find_token(x) == w.find_token(x), "find_token"); chk!(v.find_token(&x) == w.find_token(x), "find_token"); reach!(); }
    fn find_queue [14] { queue_of!(b"bbb", d, q, w); let x = any_u8(); chk!(q.find_token(x) == find(w, &[x]).is_some(), "find_token"); chk!(q.find_token(&x) == find(w, &[x]).is_some(), "find_token"); reach!(); }
    /// (content fixed; finding in queues in general is C11's)
    fn find_queue_sub [14] { let (q, m) = build(b"bbb", &DIFF, 0, borrowed); let mut w = [0; FLAT]; let n = m.flat(&DIFF, &mut w); let w = &w[..n]; each(3, |i| { let t: &[u8] = [&w[1..3], &w[2..4], &[1, 99], &[]][i]; chk!(q.find_substring(t) == find(w, t), "find_substring"); reach!(); }); }
    fn find_queue_char [14] { let q = ByteQueue::from("a\u{e9}b".as_bytes()); each(3, |i| { let c = ['a', '\u{e9}', 'b', 'c'][i]; chk!(q.find_token(c) == (c != 'c'), "find_token"); reach!(); }); }
    fn find_squeue [14] { squeue_of!(&PIECES, q, w); let b = any_u8(); chk!(q.find_token(b) == find(w.as_bytes(), &[b]).is_some(), "find_token"); reach!(); }
    fn find_squeue_char [14] { let mut q = StringQueue::new(); q.push_back("a\u{e9}"); q.push_back("b\u{20ac}"); each(4, |i| { let c = ['a', '\u{e9}', 'b', '\u{20ac}', 'c'][i]; chk!(q.find_token(c) == (c != 'c'), "find_token"); reach!(); }); }
}
