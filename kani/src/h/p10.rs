use crate::q::*;
use crate::sym::*;
use bytedata::*;

/// A queue of the given history, with its bytes in one piece.
#[inline(always)]
fn fresh<'a>(h: &[u8], d: &'a [u8], flat: &mut [u8]) -> (ByteQueue<'a>, usize) {
    let (q, m) = build(h, d, 0, borrowed);
    let n = m.flat(d, flat);
    (q, n)
}
/// What one call of an iterator over bytes must do, next to the bytes it stands before: `w` are those
/// left. Returns how many it uses up.
macro_rules! step {
    ($it:ident, $w:ident, $c:expr) => {{
        let w: &[u8] = $w;
        chk!($it.len() == w.len(), "remaining length");
        chk!($it.size_hint() == (w.len(), Some(w.len())), "size hint");
        let c: usize = $c;
        if c == 0 {
            chk!($it.next() == w.first().copied(), "next");
            $w = if w.is_empty() { w } else { &w[1..] };
        } else {
            // nth(0..), reaching past the end for the last ones, or anywhere near the top
            let n = if c == 9 { usize::MAX } else { c - 1 };
            if n < w.len() {
                chk!($it.nth(n) == Some(w[n]), "nth");
                $w = &w[n + 1..];
            } else {
                chk!($it.nth(n).is_none(), "nth past the end");
                $w = &w[w.len()..];
            }
        }
    }};
}
macro_rules! end {
    ($it:ident, $w:ident, $c:expr) => {{
        let w: &[u8] = $w;
        match $c {
            0 => chk!($it.count() == w.len(), "count"),
            1 => chk!($it.last() == w.last().copied(), "last"),
            _ => {
                let mut i = 0;
                while i < w.len() {
                    chk!($it.next() == Some(w[i]), "rest");
                    i += 1;
                }
                chk!($it.next().is_none() && $it.next().is_none(), "end");
                chk!($it.len() == 0 && $it.size_hint() == (0, Some(0)), "nothing left");
            }
        }
    }};
}
/// skip(a), take(b), then two calls and an end, for one of a few lists of those
#[inline(always)]
fn script(n: usize, k: usize) -> (usize, usize, usize, usize, usize) {
    const M: usize = usize::MAX;
    // skip, take, first call, second call, end
    match k {
        0 => (0, M, 0, 0, 2),
        1 => (1, M, 0, 2, 1),
        2 => (2, 2, 0, 0, 0),
        3 => (n - 1, 3, 0, 0, 1),
        4 => (n, 1, 0, 1, 0),
        5 => (M, M, 0, 9, 1),
        6 => (0, n - 1, 3, 0, 1),
        7 => (1, 3, 4, 0, 1),
        8 => (0, 0, 0, 0, 1),
        9 => (3, M, 9, 0, 0),
        10 => (2, n, 1, 2, 2),
        11 => (0, 3, 2, 1, 0),
        12 => (1, n - 1, 0, 0, 2),
        13 => (1, n - 2, 2, 0, 1),
        14 => (0, M, 5, 1, 2),
        _ => (1, 1, 9, 0, 2),
    }
}
pub const SCRIPTS: usize = 15;
fn cut(flat: &[u8], s: usize, t: usize) -> &[u8] {
    let s = if s < flat.len() { s } else { flat.len() };
    let w = &flat[s..];
    if t < w.len() { &w[..t] } else { w }
}
fn bytes_of(q: ByteQueue<'_>, flat: &[u8], k: usize) {
    let (s, t, a, b, e) = script(flat.len(), k);
    {
        let mut it = q.bytes();
        if s != 0 {
            it = it.skip(s);
        }
        if t != usize::MAX {
            it = it.take(t);
        }
        let mut w = cut(flat, s, t);
        step!(it, w, a);
        step!(it, w, b);
        end!(it, w, e);
    }
    chk!(q.len() == flat.len(), "the queue is as it was");
}
fn owned_of(q: ByteQueue<'_>, flat: &[u8], k: usize) {
    let (s, t, a, b, e) = script(flat.len(), k);
    let mut it = q.into_bytes();
    if s != 0 {
        it = it.skip(s);
    }
    if t != usize::MAX {
        it = it.take(t);
    }
    let mut w = cut(flat, s, t);
    step!(it, w, a);
    step!(it, w, b);
    end!(it, w, e);
}
/// Every script in `lo..=hi`, each on a path of its own.
#[inline(always)]
fn each(h: &[u8], lo: usize, hi: usize, f: impl for<'a> Fn(ByteQueue<'a>, &[u8], usize)) {
    let d: [u8; DATA] = any_bytes();
    let mut flat = [0; FLAT];
    let (q, n) = fresh(h, &d, &mut flat);
    let p = any_in(lo, hi);
    reach!();
    let mut k = lo;
    while k < hi {
        if p == k {
            f(q, &flat[..n], k);
            return;
        }
        k += 1;
    }
    f(q, &flat[..n], hi);
}

/// Chunks `c` (their numbers) from either end: what one call must do. 0 next, 1 nth(1), 2 nth(2),
/// 3 nth past the end, 4 next_back where offered.
macro_rules! chunk_step {
    ($it:ident, $m:ident, $d:ident, $c:expr, $back:expr) => {{
        let left = $m.hi - $m.lo;
        chk!($it.len() == left && $it.size_hint() == (left, Some(left)), "chunks left");
        match $c {
            4 => {
                match $back {
                    Some(x) => {
                        chk!(left != 0, "a chunk too many from the back");
                        $m.hi -= 1;
                        chk!(same_all(x.as_ref(), bytes(&$d, $m.c[$m.hi] as usize)), "chunk from the back");
                    }
                    None => chk!(left == 0, "no chunk from the back"),
                }
            }
            c => {
                let x = if c == 0 { $it.next() } else { $it.nth(c) };
                match x {
                    Some(x) => {
                        chk!(c < left, "a chunk too many");
                        $m.lo += c + 1;
                        chk!(same_all(x.as_ref(), bytes(&$d, $m.c[$m.lo - 1] as usize)), "chunk");
                    }
                    None => {
                        chk!(c >= left, "no chunk");
                        $m.lo = $m.hi;
                    }
                }
            }
        }
    }};
}
macro_rules! chunk_end {
    ($it:ident, $m:ident, $d:ident, $c:expr) => {{
        let left = $m.hi - $m.lo;
        if $c == 0 {
            chk!($it.count() == left, "count");
        } else {
            match $it.last() {
                Some(x) => chk!(left != 0 && same_all(x.as_ref(), bytes(&$d, $m.c[$m.hi - 1] as usize)), "last chunk"),
                None => chk!(left == 0, "no last chunk"),
            }
        }
    }};
}
macro_rules! str_step {
    ($it:ident, $m:ident, $c:expr, $back:expr) => {{
        let left = $m.hi - $m.lo;
        chk!($it.len() == left && $it.size_hint() == (left, Some(left)), "pieces left");
        match $c {
            4 => match $back {
                Some(x) => {
                    chk!(left != 0, "a piece too many from the back");
                    $m.hi -= 1;
                    chk!(same_all(x.as_ref(), piece($m.c[$m.hi] as usize)), "piece from the back");
                }
                None => chk!(left == 0, "no piece from the back"),
            },
            c => {
                let x = if c == 0 { $it.next() } else { $it.nth(c) };
                match x {
                    Some(x) => {
                        chk!(c < left, "a piece too many");
                        $m.lo += c + 1;
                        chk!(same_all(x.as_ref(), piece($m.c[$m.lo - 1] as usize)), "piece");
                    }
                    None => {
                        chk!(c >= left, "no piece");
                        $m.lo = $m.hi;
                    }
                }
            }
        }
    }};
}
const CALLS: [[usize; 3]; 8] = [[0, 0, 0], [1, 0, 0], [2, 0, 1], [0, 1, 1], [0, 9, 1], [9, 0, 0], [0, 2, 1], [1, 1, 0]];
const ENDS: [[usize; 3]; 6] = [[0, 4, 0], [4, 4, 1], [1, 4, 0], [4, 1, 1], [4, 9, 4], [4, 0, 4]];
#[inline(always)]
fn chunks(h: &[u8]) {
    let d: [u8; DATA] = any_bytes();
    let (q, m) = build(h, &d, 0, borrowed);
    let p = any_in(0, 7);
    reach!();
    let mut k = 0;
    while k < 8 {
        if p == k {
            let mut m = m;
            let mut it = q.chunks();
            chunk_step!(it, m, d, CALLS[k][0], None::<&ByteData<'_>>);
            chunk_step!(it, m, d, CALLS[k][1], None::<&ByteData<'_>>);
            chunk_end!(it, m, d, CALLS[k][2]);
            return;
        }
        k += 1;
    }
}
#[inline(always)]
fn chunks_skip(h: &[u8]) {
    let d: [u8; DATA] = any_bytes();
    let (q, m) = build(h, &d, 0, borrowed);
    let p = any_in(0, 5);
    reach!();
    let mut k = 0;
    while k < 6 {
        if p == k {
            let mut m = m;
            let mut it = q.chunks().skip(k);
            m.lo = if k < m.hi - m.lo { m.lo + k } else { m.hi };
            chunk_step!(it, m, d, 0, None::<&ByteData<'_>>);
            let n = m.hi - m.lo;
            it.skip_mut(1);
            m.lo = if 1 < n { m.lo + 1 } else { m.hi };
            chunk_step!(it, m, d, 0, None::<&ByteData<'_>>);
            return;
        }
        k += 1;
    }
}
#[inline(always)]
fn owned_chunks(h: &[u8], lo: usize, hi: usize) {
    let d: [u8; DATA] = any_bytes();
    let (q, m) = build(h, &d, 0, borrowed);
    let p = any_in(lo, hi);
    reach!();
    let mut k = lo;
    while k <= hi {
        if p == k {
            let mut m = m;
            let mut it = q.into_iter();
            if k < 6 {
                chunk_step!(it, m, d, ENDS[k][0], it.next_back());
                chunk_step!(it, m, d, ENDS[k][1], it.next_back());
                chunk_step!(it, m, d, ENDS[k][2], it.next_back());
            } else {
                chunk_step!(it, m, d, CALLS[k - 6][0], it.next_back());
                chunk_step!(it, m, d, CALLS[k - 6][1], it.next_back());
                chunk_end!(it, m, d, CALLS[k - 6][2]);
            }
            return;
        }
        k += 1;
    }
}
/// A text queue of pieces of 1 to 3 bytes, two of them straddled by one character.
fn texts<'a>() -> StringQueue<'a> {
    let mut q = StringQueue::new();
    q.push_back("a");
    q.push_back("\u{e9}b");
    q.push_back("\u{20ac}");
    q
}
const TEXT: &[u8] = "a\u{e9}b\u{20ac}".as_bytes();
const TM: M = M::of(&[0, 1, 2]);
#[inline(always)]
fn piece(i: usize) -> &'static [u8] {
    match i {
        0 => &TEXT[..1],
        1 => &TEXT[1..4],
        _ => &TEXT[4..],
    }
}
fn str_chunks(q: StringQueue<'_>, k: usize) {
    let mut m = TM;
    let mut it = q.chunks();
    str_step!(it, m, CALLS[k][0], None::<&StringData<'_>>);
    str_step!(it, m, CALLS[k][1], None::<&StringData<'_>>);
    if CALLS[k][2] == 0 {
        chk!(it.count() == m.hi - m.lo, "count");
    } else {
        match it.last() {
            Some(x) => chk!(m.lo < m.hi && same_all(x.as_ref(), piece(m.c[m.hi - 1] as usize)), "last piece"),
            None => chk!(m.lo == m.hi, "no last piece"),
        }
    }
}
fn str_owned(q: StringQueue<'_>, k: usize) {
    let mut m = TM;
    let mut it = q.into_iter();
    if k < 6 {
        str_step!(it, m, ENDS[k][0], it.next_back());
        str_step!(it, m, ENDS[k][1], it.next_back());
        str_step!(it, m, ENDS[k][2], it.next_back());
    } else {
        str_step!(it, m, CALLS[k - 6][0], it.next_back());
        str_step!(it, m, CALLS[k - 6][1], it.next_back());
        chk!(it.count() == m.hi - m.lo, "count");
    }
}
#[inline(always)]
fn str_each(lo: usize, hi: usize, f: impl for<'a> Fn(StringQueue<'a>, usize)) {
    let q = texts();
    let p = any_in(lo, hi);
    reach!();
    let mut k = lo;
    while k < hi {
        if p == k {
            f(q, k);
            return;
        }
        k += 1;
    }
    f(q, hi);
}
fn str_bytes(q: StringQueue<'_>, k: usize) {
    let (s, t, a, b, e) = script(TEXT.len(), k);
    let mut it = q.bytes();
    if s != 0 {
        it = it.skip(s);
    }
    if t != usize::MAX {
        it = it.take(t);
    }
    let mut w = cut(TEXT, s, t);
    step!(it, w, a);
    step!(it, w, b);
    end!(it, w, e);
}
fn str_into_bytes(q: StringQueue<'_>, k: usize) {
    let (s, t, a, b, e) = script(TEXT.len(), k);
    let mut it = q.into_bytes();
    if s != 0 {
        it = it.skip(s);
    }
    if t != usize::MAX {
        it = it.take(t);
    }
    let mut w = cut(TEXT, s, t);
    step!(it, w, a);
    step!(it, w, b);
    end!(it, w, e);
}

harnesses! {
    /// ByteIter, history bbb: scripts 0 to 7
    fn bytes_a_0 [14] { each(b"bbb", 0, 7, bytes_of); }
    /// ByteIter, history bbb: scripts 8 to 14
    fn bytes_a_8 [14] { each(b"bbb", 8, 14, bytes_of); }
    /// OwnedByteIter, history bbb: scripts 0 to 4
    fn owned_a_0 [14] { each(b"bbb", 0, 4, owned_of); }
    /// OwnedByteIter, history bbb: scripts 5 to 9
    fn owned_a_5 [14] { each(b"bbb", 5, 9, owned_of); }
    /// OwnedByteIter, history bbb: scripts 10 to 14
    fn owned_a_10 [14] { each(b"bbb", 10, 14, owned_of); }
    /// ByteIter, history bbPbbfb: scripts 0 to 7
    fn bytes_b_0 [14] { each(b"bbPbbfb", 0, 7, bytes_of); }
    /// ByteIter, history bbPbbfb: scripts 8 to 14
    fn bytes_b_8 [14] { each(b"bbPbbfb", 8, 14, bytes_of); }
    /// OwnedByteIter, history bbPbbfb: scripts 0 to 4
    fn owned_b_0 [14] { each(b"bbPbbfb", 0, 4, owned_of); }
    /// OwnedByteIter, history bbPbbfb: scripts 5 to 9
    fn owned_b_5 [14] { each(b"bbPbbfb", 5, 9, owned_of); }
    /// OwnedByteIter, history bbPbbfb: scripts 10 to 14
    fn owned_b_10 [14] { each(b"bbPbbfb", 10, 14, owned_of); }
    /// ByteIter, history fff: scripts 0 to 4
    fn th_bytes_fff_0 [14] { each(b"fff", 0, 4, bytes_of); }
    /// ByteIter, history fff: scripts 5 to 9
    fn th_bytes_fff_5 [14] { each(b"fff", 5, 9, bytes_of); }
    /// ByteIter, history fff: scripts 10 to 14
    fn th_bytes_fff_10 [14] { each(b"fff", 10, 14, bytes_of); }
    /// OwnedByteIter, history fff: scripts 0 to 4
    fn th_owned_fff_0 [14] { each(b"fff", 0, 4, owned_of); }
    /// OwnedByteIter, history fff: scripts 5 to 9
    fn th_owned_fff_5 [14] { each(b"fff", 5, 9, owned_of); }
    /// OwnedByteIter, history fff: scripts 10 to 14
    fn th_owned_fff_10 [14] { each(b"fff", 10, 14, owned_of); }
    /// ByteIter, history bbbbbbPQ: scripts 0 to 4
    fn th_bytes_bbbbbbPQ_0 [14] { each(b"bbbbbbPQ", 0, 4, bytes_of); }
    /// ByteIter, history bbbbbbPQ: scripts 5 to 9
    fn th_bytes_bbbbbbPQ_5 [14] { each(b"bbbbbbPQ", 5, 9, bytes_of); }
    /// ByteIter, history bbbbbbPQ: scripts 10 to 14
    fn th_bytes_bbbbbbPQ_10 [14] { each(b"bbbbbbPQ", 10, 14, bytes_of); }
    /// OwnedByteIter, history bbbbbbPQ: scripts 0 to 4
    fn th_owned_bbbbbbPQ_0 [14] { each(b"bbbbbbPQ", 0, 4, owned_of); }
    /// OwnedByteIter, history bbbbbbPQ: scripts 5 to 9
    fn th_owned_bbbbbbPQ_5 [14] { each(b"bbbbbbPQ", 5, 9, owned_of); }
    /// OwnedByteIter, history bbbbbbPQ: scripts 10 to 14
    fn th_owned_bbbbbbPQ_10 [14] { each(b"bbbbbbPQ", 10, 14, owned_of); }
    /// ByteIter, history bbfPP: scripts 0 to 4
    fn th_bytes_bbfPP_0 [14] { each(b"bbfPP", 0, 4, bytes_of); }
    /// ByteIter, history bbfPP: scripts 5 to 9
    fn th_bytes_bbfPP_5 [14] { each(b"bbfPP", 5, 9, bytes_of); }
    /// ByteIter, history bbfPP: scripts 10 to 14
    fn th_bytes_bbfPP_10 [14] { each(b"bbfPP", 10, 14, bytes_of); }
    /// OwnedByteIter, history bbfPP: scripts 0 to 4
    fn th_owned_bbfPP_0 [14] { each(b"bbfPP", 0, 4, owned_of); }
    /// OwnedByteIter, history bbfPP: scripts 5 to 9
    fn th_owned_bbfPP_5 [14] { each(b"bbfPP", 5, 9, owned_of); }
    /// OwnedByteIter, history bbfPP: scripts 10 to 14
    fn th_owned_bbfPP_10 [14] { each(b"bbfPP", 10, 14, owned_of); }
    /// LinkedIter: next, nth, count, last, lengths; history ''
    fn chunks_empty [14] { chunks(b""); }
    /// LinkedIter: skip, skip_mut; history ''
    fn chunks_skip_empty [14] { chunks_skip(b""); }
    /// ChunkIter from the front and the back; history ''
    fn owned_chunks_empty [14] { owned_chunks(b"", 0, 6); }
    /// ChunkIter from the front and the back, nth, count, last; history ''
    fn owned_chunks_nth_empty [14] { owned_chunks(b"", 7, 13); }
    /// LinkedIter: next, nth, count, last, lengths; history 'b'
    fn chunks_first [14] { chunks(b"b"); }
    /// LinkedIter: skip, skip_mut; history 'b'
    fn chunks_skip_first [14] { chunks_skip(b"b"); }
    /// ChunkIter from the front and the back; history 'b'
    fn owned_chunks_first [14] { owned_chunks(b"b", 0, 6); }
    /// ChunkIter from the front and the back, nth, count, last; history 'b'
    fn owned_chunks_nth_first [14] { owned_chunks(b"b", 7, 13); }
    /// LinkedIter: next, nth, count, last, lengths; history 'bbbbb'
    fn chunks_full [14] { chunks(b"bbbbb"); }
    /// LinkedIter: skip, skip_mut; history 'bbbbb'
    fn chunks_skip_full [14] { chunks_skip(b"bbbbb"); }
    /// ChunkIter from the front and the back; history 'bbbbb'
    fn owned_chunks_full [14] { owned_chunks(b"bbbbb", 0, 6); }
    /// ChunkIter from the front and the back, nth, count, last; history 'bbbbb'
    fn owned_chunks_nth_full [14] { owned_chunks(b"bbbbb", 7, 13); }
    /// LinkedIter: next, nth, count, last, lengths; history 'bbbPPbb'
    fn chunks_wrap [14] { chunks(b"bbbPPbb"); }
    /// LinkedIter: skip, skip_mut; history 'bbbPPbb'
    fn chunks_skip_wrap [14] { chunks_skip(b"bbbPPbb"); }
    /// ChunkIter from the front and the back; history 'bbbPPbb'
    fn owned_chunks_wrap [14] { owned_chunks(b"bbbPPbb", 0, 6); }
    /// ChunkIter from the front and the back, nth, count, last; history 'bbbPPbb'
    fn owned_chunks_nth_wrap [14] { owned_chunks(b"bbbPPbb", 7, 13); }
    /// LinkedIter: next, nth, count, last, lengths; history 'bbfPP'
    fn chunks_front [14] { chunks(b"bbfPP"); }
    /// LinkedIter: skip, skip_mut; history 'bbfPP'
    fn chunks_skip_front [14] { chunks_skip(b"bbfPP"); }
    /// ChunkIter from the front and the back; history 'bbfPP'
    fn owned_chunks_front [14] { owned_chunks(b"bbfPP", 0, 6); }
    /// ChunkIter from the front and the back, nth, count, last; history 'bbfPP'
    fn owned_chunks_nth_front [14] { owned_chunks(b"bbfPP", 7, 13); }
    /// LinkedStrIter
    fn str_chunks_all [14] { str_each(0, 7, str_chunks); }
    /// StrChunkIter from both ends
    fn str_owned_ends [14] { str_each(0, 6, str_owned); }
    /// StrChunkIter, nth, count
    fn str_owned_nth [14] { str_each(7, 13, str_owned); }
    /// ByteIter of a text queue
    fn str_bytes_0 [14] { str_each(0, 7, str_bytes); }
    /// OwnedByteIter of a text queue
    fn str_into_bytes_0 [14] { str_each(0, 7, str_into_bytes); }
    /// nodes of the real size: past a full first node
    fn big_bytes [48] {
        let d: [u8; DATA] = any_bytes();
        let mut flat = [0; FLAT];
        let (q, n) = fresh(b"bbbbbbbbbbbbbbbbbb", &d, &mut flat);
        let mut it = q.bytes().skip(21);
        chk!(it.next() == Some(flat[21]), "next");
        chk!(it.nth(1) == Some(flat[23]), "nth");
        chk!(it.len() == n - 24 && it.last() == Some(flat[n - 1]), "last");
        reach!();
    }
}
