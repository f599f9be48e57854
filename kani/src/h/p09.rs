use crate::q::*;
use crate::sym::*;
use bytedata::*;
use core::ops::Bound;

/// A queue of the given shape with its bytes in one piece; a fresh one on every path.
#[inline(always)]
fn fresh<'a>(s: usize, d: &'a [u8], flat: &mut [u8]) -> (ByteQueue<'a>, usize) {
    let (q, m) = build(SHAPES[s], d, 0, borrowed);
    let n = m.flat(d, flat);
    (q, n)
}
/// One cut: every position in `lo..=hi`. The queue is built once, each position is a path of its own.
#[inline(always)]
fn at(s: usize, lo: usize, hi: usize, f: impl for<'a> Fn(ByteQueue<'a>, &[u8], usize)) {
    let d: [u8; DATA] = any_bytes();
    let mut flat = [0; FLAT];
    let (q, n) = fresh(s, &d, &mut flat);
    let p = any_in(lo, hi);
    reach!();
    let mut k = lo;
    while k < hi {
        if p == k {
            f(q, &flat[..n], k);
            return;
        }
        k += 1;
    }
    f(q, &flat[..n], hi);
}
/// Two cuts: the first at `a`, the second anywhere from there to the end.
#[inline(always)]
fn from(s: usize, a: usize, n: usize, f: impl for<'a> Fn(ByteQueue<'a>, &[u8], usize, usize)) {
    at(s, a, n, |q, flat, b| f(q, flat, a, b));
}
/// `flat` with `a..b` replaced by `with`.
#[inline(always)]
fn spliced(flat: &[u8], a: usize, b: usize, with: &[u8], f: impl Fn(&[u8])) {
    let mut out = [0; FLAT];
    let mut n = 0;
    let mut i = 0;
    while i < a {
        out[n] = flat[i];
        n += 1;
        i += 1;
    }
    i = 0;
    while i < with.len() {
        out[n] = with[i];
        n += 1;
        i += 1;
    }
    i = b;
    while i < flat.len() {
        out[n] = flat[i];
        n += 1;
        i += 1;
    }
    f(&out[..n]);
}
fn consume(mut q: ByteQueue<'_>, flat: &[u8], p: usize) {
    q.consume(p);
    is_flat(&q, &flat[p..]);
}
fn split_off(mut q: ByteQueue<'_>, flat: &[u8], p: usize) {
    let r = q.split_off(p);
    is_flat(&q, &flat[..p]);
    is_flat(&r, &flat[p..]);
}
fn take_while(mut q: ByteQueue<'_>, flat: &[u8], p: usize) {
    let mut i = 0;
    let r = q.take_while(|b| {
        chk!(i <= p && i < flat.len() && b == flat[i], "bytes are asked about in order, once");
        i += 1;
        i <= p
    });
    is_flat(&r, &flat[..p]);
    is_flat(&q, &flat[p..]);
}
fn slice(q: ByteQueue<'_>, flat: &[u8], a: usize, b: usize) {
    let r = q.slice(a..b);
    is_flat(&r, &flat[a..b]);
    drop(r);
    is_flat(&q, flat);
}
fn drain_drop(mut q: ByteQueue<'_>, flat: &[u8], a: usize, b: usize) {
    drop(q.drain(a..b));
    spliced(flat, a, b, b"", |w| is_flat(&q, w));
}
fn drain_part(mut q: ByteQueue<'_>, flat: &[u8], a: usize, b: usize) {
    {
        let mut it = q.drain(a..b);
        let x = it.next();
        chk!(x == if a < b { Some(flat[a]) } else { None }, "drained byte");
    }
    spliced(flat, a, b, b"", |w| is_flat(&q, w));
}
fn drain_all(mut q: ByteQueue<'_>, flat: &[u8], a: usize, b: usize) {
    {
        let mut it = q.drain(a..b);
        let mut i = a;
        while i < b {
            chk!(it.len() == b - i && it.size_hint() == (b - i, Some(b - i)), "bytes left");
            chk!(it.next() == Some(flat[i]), "drained byte");
            i += 1;
        }
        chk!(it.next().is_none() && it.len() == 0, "drain ends late");
    }
    spliced(flat, a, b, b"", |w| is_flat(&q, w));
}
fn replace(mut q: ByteQueue<'_>, flat: &[u8], a: usize, b: usize) {
    const W: &[u8] = b"xyz";
    q.replace_range(a..b, ByteData::from_static(W));
    spliced(flat, a, b, W, |w| is_flat(&q, w));
}
fn replace_none(mut q: ByteQueue<'_>, flat: &[u8], a: usize, b: usize) {
    q.replace_range(a..b, ByteData::empty());
    spliced(flat, a, b, b"", |w| is_flat(&q, w));
}
/// A cut out of range, made of `far`: one past the end, two past it, or the largest position.
#[inline(always)]
fn beyond(f: impl for<'a> Fn(&mut ByteQueue<'a>, usize)) {
    let d: [u8; DATA] = any_bytes();
    let k = any_in(0, 2);
    let (mut q, m) = build(b"bbb", &d, 0, borrowed);
    split(k, 2, |k| f(&mut q, [m.len() + 1, m.len() + 2, usize::MAX][k]));
}

/// Ranges of every form, in range for `n >= 3`.
fn form(k: usize, n: usize) -> ((Bound<usize>, Bound<usize>), usize, usize) {
    use Bound::*;
    match k {
        0 => ((Unbounded, Unbounded), 0, n),
        1 => ((Included(1), Unbounded), 1, n),
        2 => ((Unbounded, Excluded(n - 1)), 0, n - 1),
        3 => ((Unbounded, Included(1)), 0, 2),
        4 => ((Excluded(0), Included(n - 1)), 1, n),
        5 => ((Excluded(n - 1), Excluded(n)), n, n),
        _ => ((Unbounded, Excluded(0)), 0, 0),
    }
}
struct Reversed;
impl core::ops::RangeBounds<usize> for Reversed {
    fn start_bound(&self) -> Bound<&usize> {
        Bound::Included(&2)
    }
    fn end_bound(&self) -> Bound<&usize> {
        Bound::Excluded(&1)
    }
}

harnesses! {
    /// consume: queue of history 'bbbbb', positions 0 to 7
    fn consume_04_0 [14] { at(4, 0, 7, consume); }
    /// consume: queue of history 'bbbPPbb', positions 0 to 4
    fn consume_10_0 [14] { at(10, 0, 4, consume); }
    /// split_off: queue of history 'bbbbb', positions 0 to 3
    fn split_off_04_0 [14] { at(4, 0, 3, split_off); }
    /// split_off: queue of history 'bbbbb', positions 4 to 7
    fn split_off_04_4 [14] { at(4, 4, 7, split_off); }
    /// split_off: queue of history 'fffff', positions 0 to 3
    fn split_off_09_0 [14] { at(9, 0, 3, split_off); }
    /// split_off: queue of history 'fffff', positions 4 to 7
    fn split_off_09_4 [14] { at(9, 4, 7, split_off); }
    /// take_while: queue of history 'bbbbb', positions 0 to 3
    fn take_while_04_0 [14] { at(4, 0, 3, take_while); }
    /// take_while: queue of history 'bbbbb', positions 4 to 7
    fn take_while_04_4 [14] { at(4, 4, 7, take_while); }
    fn take_while_00 [14] { at(0, 0, 0, take_while); }
    fn consume_00 [14] { at(0, 0, 0, consume); }
    fn split_off_00 [14] { at(0, 0, 0, split_off); }
    /// slice: queue of history 'bbbbb', range from 0
    fn slice_04_0 [14] { from(4, 0, 7, slice); }
    /// slice: queue of history 'bbbbb', range from 1
    fn slice_04_1 [14] { from(4, 1, 7, slice); }
    /// slice: queue of history 'bbbbb', range from 2
    fn slice_04_2 [14] { from(4, 2, 7, slice); }
    /// slice: queue of history 'bbbbb', range from 4
    fn slice_04_4 [14] { from(4, 4, 7, slice); }
    /// slice: queue of history 'bbbPPbb', range from 0
    fn slice_10_0 [14] { from(10, 0, 4, slice); }
    /// slice: queue of history 'bbbPPbb', range from 2
    fn slice_10_2 [14] { from(10, 2, 4, slice); }
    /// drain_drop: queue of history 'bbbbb', range from 0
    fn drain_drop_04_0 [14] { from(4, 0, 7, drain_drop); }
    /// drain_drop: queue of history 'bbbbb', range from 1
    fn drain_drop_04_1 [14] { from(4, 1, 7, drain_drop); }
    /// drain_drop: queue of history 'bbbbb', range from 2
    fn drain_drop_04_2 [14] { from(4, 2, 7, drain_drop); }
    /// drain_drop: queue of history 'bbbbb', range from 4
    fn drain_drop_04_4 [14] { from(4, 4, 7, drain_drop); }
    /// replace: queue of history 'bbbbb', range from 0
    fn replace_04_0 [14] { from(4, 0, 7, replace); }
    /// replace: queue of history 'bbbbb', range from 1
    fn replace_04_1 [14] { from(4, 1, 7, replace); }
    /// replace: queue of history 'bbbbb', range from 4
    fn replace_04_4 [14] { from(4, 4, 7, replace); }
    /// replace_none: queue of history 'bbbbb', range from 2
    fn replace_none_04_2 [14] { from(4, 2, 7, replace_none); }
    /// slice: the empty queue
    fn slice_00 [14] { from(0, 0, 0, slice); }
    /// drain_drop: the empty queue
    fn drain_drop_00 [14] { from(0, 0, 0, drain_drop); }
    /// replace: the empty queue
    fn replace_00 [14] { from(0, 0, 0, replace); }
    /// drain, partly used: one byte is taken, then the rest is dropped
    fn drain_next [14] {
        let d: [u8; 3] = any_bytes();
        let mut q = ByteQueue::from(&d[..]);
        {
            let mut it = q.drain(1..3);
            chk!(it.next() == Some(d[1]), "drained byte");
        }
        is_flat(&q, &d[..1]);
        reach!();
    }
    /// drain, asking for the last byte or the number of bytes
    fn drain_last [14] {
        let d: [u8; DATA] = any_bytes();
        let k = any_in(0, 1);
        let mut flat = [0; FLAT];
        let (mut q, n) = fresh(2, &d, &mut flat);
        reach!();
        if k == 0 {
            chk!(q.drain(1..n).last() == Some(flat[n - 1]), "last drained byte");
            is_flat(&q, &flat[..1]);
            return;
        }
        let it = q.drain(..n - 1);
        chk!(it.len() == n - 1 && it.size_hint() == (n - 1, Some(n - 1)), "bytes left");
        chk!(it.count() == n - 1, "drained bytes");
        is_flat(&q, &flat[n - 1..n]);
    }
    /// drain, used up or in part: a queue of one chunk of 3 bytes
    fn th_drain_used [14] {
        let d: [u8; 3] = any_bytes();
        let k = any_in(0, 3);
        reach!();
        let q = ByteQueue::from(&d[..]);
        if k == 0 {
            drain_part(q, &d, 0, 2);
            return;
        }
        if k == 1 {
            drain_part(q, &d, 1, 3);
            return;
        }
        if k == 2 {
            drain_all(q, &d, 1, 3);
            return;
        }
        drain_all(q, &d, 1, 2);
    }
    /// every form of range bound: slice
    fn forms_slice [14] {
        let d: [u8; DATA] = any_bytes();
        let mut flat = [0; FLAT];
        let (q, n) = fresh(2, &d, &mut flat);
        let k = any_in(0, 6);
        split(k, 6, |k| {
            let (r, a, b) = form(k, n);
            is_flat(&q.slice(r), &flat[a..b]);
        });
        reach!();
    }
    /// every form of range bound: drain
    fn forms_drain [14] {
        let d: [u8; DATA] = any_bytes();
        let mut flat = [0; FLAT];
        let (mut q, n) = fresh(2, &d, &mut flat);
        let p = any_in(0, 6);
        reach!();
        let mut k = 0;
        while k <= 6 {
            if p == k {
                let (r, a, b) = form(k, n);
                drop(q.drain(r));
                spliced(&flat[..n], a, b, b"", |w| is_flat(&q, w));
                return;
            }
            k += 1;
        }
    }
    /// cuts out of range are refused
    fn rej_consume [14] { beyond(|q, p| refused!(q.consume(p), "consume past the end")); }
    fn rej_split_off [14] { beyond(|q, p| refused!(q.split_off(p), "split_off past the end")); }
    fn rej_slice_end [14] { beyond(|q, p| refused!(q.slice(1..p), "slice past the end")); }
    fn rej_slice_start [14] { beyond(|q, p| refused!(q.slice(p..), "slice from past the end")); }
    fn rej_slice_last [14] { beyond(|q, p| refused!(q.slice(..=p - 1), "inclusive slice past the end")); }
    fn rej_slice_after [14] { beyond(|q, p| refused!(q.slice((Bound::Excluded(p), Bound::Unbounded)), "slice after past the end")); }
    fn rej_drain [14] { beyond(|q, p| refused!(q.drain(1..p), "drain past the end")); }
    fn rej_drain_start [14] { beyond(|q, p| refused!(q.drain(p..), "drain from past the end")); }
    fn rej_replace [14] { beyond(|q, p| refused!(q.replace_range(1..p, ByteData::empty()), "replace past the end")); }
    fn rej_backwards [14] { beyond(|q, _| refused!(q.slice(Reversed), "a range that ends before it starts")); }
    /// nodes of the real size: cuts around a full first node
    fn big_split_off [48] {
        let d: [u8; DATA] = any_bytes();
        let (mut q, m) = build(b"bbbbbbbbbbbbbbbbbb", &d, 0, borrowed);
        let mut flat = [0; FLAT];
        let n = m.flat(&d, &mut flat);
        let r = q.split_off(23);
        is_flat(&q, &flat[..23]);
        is_flat(&r, &flat[23..n]);
        reach!();
    }
    fn big_drain [48] {
        let d: [u8; DATA] = any_bytes();
        let (mut q, m) = build(b"bbbbbbbbbbbbbbbbbb", &d, 0, borrowed);
        let mut flat = [0; FLAT];
        let n = m.flat(&d, &mut flat);
        drop(q.drain(2..n - 2));
        spliced(&flat[..n], 2, n - 2, b"", |w| is_flat(&q, w));
        reach!();
    }
    /// consume: queue of history 'b', positions 0 to 1
    fn th_consume_01_0 [14] { at(1, 0, 1, consume); }
    /// consume: queue of history 'bb', positions 0 to 2
    fn th_consume_02_0 [14] { at(2, 0, 2, consume); }
    /// consume: queue of history 'bb', positions 3 to 3
    fn th_consume_02_3 [14] { at(2, 3, 3, consume); }
    /// consume: queue of history 'bbbb', positions 0 to 2
    fn th_consume_03_0 [14] { at(3, 0, 2, consume); }
    /// consume: queue of history 'bbbb', positions 3 to 5
    fn th_consume_03_3 [14] { at(3, 3, 5, consume); }
    /// consume: queue of history 'bbbb', positions 6 to 6
    fn th_consume_03_6 [14] { at(3, 6, 6, consume); }
    /// consume: queue of history 'bbQ', positions 0 to 1
    fn th_consume_05_0 [14] { at(5, 0, 1, consume); }
    /// consume: queue of history 'bbPQ', positions 0 to 0
    fn th_consume_06_0 [14] { at(6, 0, 0, consume); }
    /// consume: queue of history 'bbP', positions 0 to 2
    fn th_consume_07_0 [14] { at(7, 0, 2, consume); }
    /// consume: queue of history 'fff', positions 0 to 2
    fn th_consume_08_0 [14] { at(8, 0, 2, consume); }
    /// consume: queue of history 'fff', positions 3 to 4
    fn th_consume_08_3 [14] { at(8, 3, 4, consume); }
    /// consume: queue of history 'bbbbbbPQ', positions 0 to 2
    fn th_consume_11_0 [14] { at(11, 0, 2, consume); }
    /// consume: queue of history 'bbbbbbPQ', positions 3 to 5
    fn th_consume_11_3 [14] { at(11, 3, 5, consume); }
    /// consume: queue of history 'bbbbbbPQ', positions 6 to 6
    fn th_consume_11_6 [14] { at(11, 6, 6, consume); }
    /// consume: queue of history 'bbfPP', positions 0 to 2
    fn th_consume_12_0 [14] { at(12, 0, 2, consume); }
    /// consume: queue of history 'bbbbbfPPQ', positions 0 to 2
    fn th_consume_13_0 [14] { at(13, 0, 2, consume); }
    /// consume: queue of history 'bbbbbfPPQ', positions 3 to 5
    fn th_consume_13_3 [14] { at(13, 3, 5, consume); }
    /// split_off: queue of history 'b', positions 0 to 1
    fn th_split_off_01_0 [14] { at(1, 0, 1, split_off); }
    /// split_off: queue of history 'bb', positions 0 to 2
    fn th_split_off_02_0 [14] { at(2, 0, 2, split_off); }
    /// split_off: queue of history 'bb', positions 3 to 3
    fn th_split_off_02_3 [14] { at(2, 3, 3, split_off); }
    /// split_off: queue of history 'bbbb', positions 0 to 2
    fn th_split_off_03_0 [14] { at(3, 0, 2, split_off); }
    /// split_off: queue of history 'bbbb', positions 3 to 5
    fn th_split_off_03_3 [14] { at(3, 3, 5, split_off); }
    /// split_off: queue of history 'bbbb', positions 6 to 6
    fn th_split_off_03_6 [14] { at(3, 6, 6, split_off); }
    /// split_off: queue of history 'bbQ', positions 0 to 1
    fn th_split_off_05_0 [14] { at(5, 0, 1, split_off); }
    /// split_off: queue of history 'bbPQ', positions 0 to 0
    fn th_split_off_06_0 [14] { at(6, 0, 0, split_off); }
    /// split_off: queue of history 'bbP', positions 0 to 2
    fn th_split_off_07_0 [14] { at(7, 0, 2, split_off); }
    /// split_off: queue of history 'fff', positions 0 to 2
    fn th_split_off_08_0 [14] { at(8, 0, 2, split_off); }
    /// split_off: queue of history 'fff', positions 3 to 4
    fn th_split_off_08_3 [14] { at(8, 3, 4, split_off); }
    /// split_off: queue of history 'bbbbbbPQ', positions 0 to 2
    fn th_split_off_11_0 [14] { at(11, 0, 2, split_off); }
    /// split_off: queue of history 'bbbbbbPQ', positions 3 to 5
    fn th_split_off_11_3 [14] { at(11, 3, 5, split_off); }
    /// split_off: queue of history 'bbbbbbPQ', positions 6 to 6
    fn th_split_off_11_6 [14] { at(11, 6, 6, split_off); }
    /// split_off: queue of history 'bbfPP', positions 0 to 2
    fn th_split_off_12_0 [14] { at(12, 0, 2, split_off); }
    /// split_off: queue of history 'bbbbbfPPQ', positions 0 to 2
    fn th_split_off_13_0 [14] { at(13, 0, 2, split_off); }
    /// split_off: queue of history 'bbbbbfPPQ', positions 3 to 5
    fn th_split_off_13_3 [14] { at(13, 3, 5, split_off); }
    /// take_while: queue of history 'b', positions 0 to 1
    fn th_take_while_01_0 [14] { at(1, 0, 1, take_while); }
    /// take_while: queue of history 'bb', positions 0 to 2
    fn th_take_while_02_0 [14] { at(2, 0, 2, take_while); }
    /// take_while: queue of history 'bb', positions 3 to 3
    fn th_take_while_02_3 [14] { at(2, 3, 3, take_while); }
    /// take_while: queue of history 'bbbb', positions 0 to 2
    fn th_take_while_03_0 [14] { at(3, 0, 2, take_while); }
    /// take_while: queue of history 'bbbb', positions 3 to 5
    fn th_take_while_03_3 [14] { at(3, 3, 5, take_while); }
    /// take_while: queue of history 'bbbb', positions 6 to 6
    fn th_take_while_03_6 [14] { at(3, 6, 6, take_while); }
    /// take_while: queue of history 'bbQ', positions 0 to 1
    fn th_take_while_05_0 [14] { at(5, 0, 1, take_while); }
    /// take_while: queue of history 'bbPQ', positions 0 to 0
    fn th_take_while_06_0 [14] { at(6, 0, 0, take_while); }
    /// take_while: queue of history 'bbP', positions 0 to 2
    fn th_take_while_07_0 [14] { at(7, 0, 2, take_while); }
    /// take_while: queue of history 'fff', positions 0 to 2
    fn th_take_while_08_0 [14] { at(8, 0, 2, take_while); }
    /// take_while: queue of history 'fff', positions 3 to 4
    fn th_take_while_08_3 [14] { at(8, 3, 4, take_while); }
    /// take_while: queue of history 'fffff', positions 0 to 2
    fn th_take_while_09_0 [14] { at(9, 0, 2, take_while); }
    /// take_while: queue of history 'fffff', positions 3 to 5
    fn th_take_while_09_3 [14] { at(9, 3, 5, take_while); }
    /// take_while: queue of history 'fffff', positions 6 to 7
    fn th_take_while_09_6 [14] { at(9, 6, 7, take_while); }
    /// take_while: queue of history 'bbbPPbb', positions 0 to 2
    fn th_take_while_10_0 [14] { at(10, 0, 2, take_while); }
    /// take_while: queue of history 'bbbPPbb', positions 3 to 4
    fn th_take_while_10_3 [14] { at(10, 3, 4, take_while); }
    /// take_while: queue of history 'bbbbbbPQ', positions 0 to 2
    fn th_take_while_11_0 [14] { at(11, 0, 2, take_while); }
    /// take_while: queue of history 'bbbbbbPQ', positions 3 to 5
    fn th_take_while_11_3 [14] { at(11, 3, 5, take_while); }
    /// take_while: queue of history 'bbbbbbPQ', positions 6 to 6
    fn th_take_while_11_6 [14] { at(11, 6, 6, take_while); }
    /// take_while: queue of history 'bbfPP', positions 0 to 2
    fn th_take_while_12_0 [14] { at(12, 0, 2, take_while); }
    /// take_while: queue of history 'bbbbbfPPQ', positions 0 to 2
    fn th_take_while_13_0 [14] { at(13, 0, 2, take_while); }
    /// take_while: queue of history 'bbbbbfPPQ', positions 3 to 5
    fn th_take_while_13_3 [14] { at(13, 3, 5, take_while); }
    /// slice: queue of history 'b', range from 0
    fn th_slice_01_0 [14] { from(1, 0, 1, slice); }
    /// slice: queue of history 'b', range from 1
    fn th_slice_01_1 [14] { from(1, 1, 1, slice); }
    /// slice: queue of history 'bb', range from 0
    fn th_slice_02_0 [14] { from(2, 0, 3, slice); }
    /// slice: queue of history 'bb', range from 1
    fn th_slice_02_1 [14] { from(2, 1, 3, slice); }
    /// slice: queue of history 'bb', range from 2
    fn th_slice_02_2 [14] { from(2, 2, 3, slice); }
    /// slice: queue of history 'bb', range from 3
    fn th_slice_02_3 [14] { from(2, 3, 3, slice); }
    /// slice: queue of history 'bbbbb', range from 3
    fn th_slice_04_3 [14] { from(4, 3, 7, slice); }
    /// slice: queue of history 'bbbbb', range from 5
    fn th_slice_04_5 [14] { from(4, 5, 7, slice); }
    /// slice: queue of history 'bbbbb', range from 6
    fn th_slice_04_6 [14] { from(4, 6, 7, slice); }
    /// slice: queue of history 'bbbbb', range from 7
    fn th_slice_04_7 [14] { from(4, 7, 7, slice); }
    /// slice: queue of history 'bbP', range from 0
    fn th_slice_07_0 [14] { from(7, 0, 2, slice); }
    /// slice: queue of history 'bbP', range from 1
    fn th_slice_07_1 [14] { from(7, 1, 2, slice); }
    /// slice: queue of history 'bbP', range from 2
    fn th_slice_07_2 [14] { from(7, 2, 2, slice); }
    /// slice: queue of history 'fffff', range from 0
    fn th_slice_09_0 [14] { from(9, 0, 7, slice); }
    /// slice: queue of history 'fffff', range from 1
    fn th_slice_09_1 [14] { from(9, 1, 7, slice); }
    /// slice: queue of history 'fffff', range from 2
    fn th_slice_09_2 [14] { from(9, 2, 7, slice); }
    /// slice: queue of history 'fffff', range from 3
    fn th_slice_09_3 [14] { from(9, 3, 7, slice); }
    /// slice: queue of history 'fffff', range from 4
    fn th_slice_09_4 [14] { from(9, 4, 7, slice); }
    /// slice: queue of history 'fffff', range from 5
    fn th_slice_09_5 [14] { from(9, 5, 7, slice); }
    /// slice: queue of history 'fffff', range from 6
    fn th_slice_09_6 [14] { from(9, 6, 7, slice); }
    /// slice: queue of history 'fffff', range from 7
    fn th_slice_09_7 [14] { from(9, 7, 7, slice); }
    /// slice: queue of history 'bbbPPbb', range from 1
    fn th_slice_10_1 [14] { from(10, 1, 4, slice); }
    /// slice: queue of history 'bbbPPbb', range from 3
    fn th_slice_10_3 [14] { from(10, 3, 4, slice); }
    /// slice: queue of history 'bbbPPbb', range from 4
    fn th_slice_10_4 [14] { from(10, 4, 4, slice); }
    /// slice: queue of history 'bbbbbfPPQ', range from 0
    fn th_slice_13_0 [14] { from(13, 0, 5, slice); }
    /// slice: queue of history 'bbbbbfPPQ', range from 1
    fn th_slice_13_1 [14] { from(13, 1, 5, slice); }
    /// slice: queue of history 'bbbbbfPPQ', range from 2
    fn th_slice_13_2 [14] { from(13, 2, 5, slice); }
    /// slice: queue of history 'bbbbbfPPQ', range from 3
    fn th_slice_13_3 [14] { from(13, 3, 5, slice); }
    /// slice: queue of history 'bbbbbfPPQ', range from 4
    fn th_slice_13_4 [14] { from(13, 4, 5, slice); }
    /// slice: queue of history 'bbbbbfPPQ', range from 5
    fn th_slice_13_5 [14] { from(13, 5, 5, slice); }
    /// drain_drop: queue of history 'b', range from 0
    fn th_drain_drop_01_0 [14] { from(1, 0, 1, drain_drop); }
    /// drain_drop: queue of history 'b', range from 1
    fn th_drain_drop_01_1 [14] { from(1, 1, 1, drain_drop); }
    /// drain_drop: queue of history 'bb', range from 0
    fn th_drain_drop_02_0 [14] { from(2, 0, 3, drain_drop); }
    /// drain_drop: queue of history 'bb', range from 1
    fn th_drain_drop_02_1 [14] { from(2, 1, 3, drain_drop); }
    /// drain_drop: queue of history 'bb', range from 2
    fn th_drain_drop_02_2 [14] { from(2, 2, 3, drain_drop); }
    /// drain_drop: queue of history 'bb', range from 3
    fn th_drain_drop_02_3 [14] { from(2, 3, 3, drain_drop); }
    /// drain_drop: queue of history 'bbbbb', range from 3
    fn th_drain_drop_04_3 [14] { from(4, 3, 7, drain_drop); }
    /// drain_drop: queue of history 'bbbbb', range from 5
    fn th_drain_drop_04_5 [14] { from(4, 5, 7, drain_drop); }
    /// drain_drop: queue of history 'bbbbb', range from 6
    fn th_drain_drop_04_6 [14] { from(4, 6, 7, drain_drop); }
    /// drain_drop: queue of history 'bbbbb', range from 7
    fn th_drain_drop_04_7 [14] { from(4, 7, 7, drain_drop); }
    /// drain_drop: queue of history 'bbP', range from 0
    fn th_drain_drop_07_0 [14] { from(7, 0, 2, drain_drop); }
    /// drain_drop: queue of history 'bbP', range from 1
    fn th_drain_drop_07_1 [14] { from(7, 1, 2, drain_drop); }
    /// drain_drop: queue of history 'bbP', range from 2
    fn th_drain_drop_07_2 [14] { from(7, 2, 2, drain_drop); }
    /// drain_drop: queue of history 'fffff', range from 0
    fn th_drain_drop_09_0 [14] { from(9, 0, 7, drain_drop); }
    /// drain_drop: queue of history 'fffff', range from 1
    fn th_drain_drop_09_1 [14] { from(9, 1, 7, drain_drop); }
    /// drain_drop: queue of history 'fffff', range from 2
    fn th_drain_drop_09_2 [14] { from(9, 2, 7, drain_drop); }
    /// drain_drop: queue of history 'fffff', range from 3
    fn th_drain_drop_09_3 [14] { from(9, 3, 7, drain_drop); }
    /// drain_drop: queue of history 'fffff', range from 4
    fn th_drain_drop_09_4 [14] { from(9, 4, 7, drain_drop); }
    /// drain_drop: queue of history 'fffff', range from 5
    fn th_drain_drop_09_5 [14] { from(9, 5, 7, drain_drop); }
    /// drain_drop: queue of history 'fffff', range from 6
    fn th_drain_drop_09_6 [14] { from(9, 6, 7, drain_drop); }
    /// drain_drop: queue of history 'fffff', range from 7
    fn th_drain_drop_09_7 [14] { from(9, 7, 7, drain_drop); }
    /// drain_drop: queue of history 'bbbPPbb', range from 0
    fn th_drain_drop_10_0 [14] { from(10, 0, 4, drain_drop); }
    /// drain_drop: queue of history 'bbbPPbb', range from 1
    fn th_drain_drop_10_1 [14] { from(10, 1, 4, drain_drop); }
    /// drain_drop: queue of history 'bbbPPbb', range from 2
    fn th_drain_drop_10_2 [14] { from(10, 2, 4, drain_drop); }
    /// drain_drop: queue of history 'bbbPPbb', range from 3
    fn th_drain_drop_10_3 [14] { from(10, 3, 4, drain_drop); }
    /// drain_drop: queue of history 'bbbPPbb', range from 4
    fn th_drain_drop_10_4 [14] { from(10, 4, 4, drain_drop); }
    /// drain_drop: queue of history 'bbbbbfPPQ', range from 0
    fn th_drain_drop_13_0 [14] { from(13, 0, 5, drain_drop); }
    /// drain_drop: queue of history 'bbbbbfPPQ', range from 1
    fn th_drain_drop_13_1 [14] { from(13, 1, 5, drain_drop); }
    /// drain_drop: queue of history 'bbbbbfPPQ', range from 2
    fn th_drain_drop_13_2 [14] { from(13, 2, 5, drain_drop); }
    /// drain_drop: queue of history 'bbbbbfPPQ', range from 3
    fn th_drain_drop_13_3 [14] { from(13, 3, 5, drain_drop); }
    /// drain_drop: queue of history 'bbbbbfPPQ', range from 4
    fn th_drain_drop_13_4 [14] { from(13, 4, 5, drain_drop); }
    /// drain_drop: queue of history 'bbbbbfPPQ', range from 5
    fn th_drain_drop_13_5 [14] { from(13, 5, 5, drain_drop); }
    /// drain_part: queue of history 'b', range from 0
    fn th_drain_part_01_0 [14] { from(1, 0, 1, drain_part); }
    /// drain_part: queue of history 'b', range from 1
    fn th_drain_part_01_1 [14] { from(1, 1, 1, drain_part); }
    /// drain_part: queue of history 'bb', range from 0
    fn th_drain_part_02_0 [14] { from(2, 0, 3, drain_part); }
    /// drain_part: queue of history 'bb', range from 1
    fn th_drain_part_02_1 [14] { from(2, 1, 3, drain_part); }
    /// drain_part: queue of history 'bb', range from 2
    fn th_drain_part_02_2 [14] { from(2, 2, 3, drain_part); }
    /// drain_part: queue of history 'bb', range from 3
    fn th_drain_part_02_3 [14] { from(2, 3, 3, drain_part); }
    /// drain_part: queue of history 'bbbbb', range from 0
    fn th_drain_part_04_0 [14] { from(4, 0, 7, drain_part); }
    /// drain_part: queue of history 'bbbbb', range from 1
    fn th_drain_part_04_1 [14] { from(4, 1, 7, drain_part); }
    /// drain_part: queue of history 'bbbbb', range from 2
    fn th_drain_part_04_2 [14] { from(4, 2, 7, drain_part); }
    /// drain_part: queue of history 'bbbbb', range from 3
    fn th_drain_part_04_3 [14] { from(4, 3, 7, drain_part); }
    /// drain_part: queue of history 'bbbbb', range from 4
    fn th_drain_part_04_4 [14] { from(4, 4, 7, drain_part); }
    /// drain_part: queue of history 'bbbbb', range from 5
    fn th_drain_part_04_5 [14] { from(4, 5, 7, drain_part); }
    /// drain_part: queue of history 'bbbbb', range from 6
    fn th_drain_part_04_6 [14] { from(4, 6, 7, drain_part); }
    /// drain_part: queue of history 'bbbbb', range from 7
    fn th_drain_part_04_7 [14] { from(4, 7, 7, drain_part); }
    /// drain_part: queue of history 'bbP', range from 0
    fn th_drain_part_07_0 [14] { from(7, 0, 2, drain_part); }
    /// drain_part: queue of history 'bbP', range from 1
    fn th_drain_part_07_1 [14] { from(7, 1, 2, drain_part); }
    /// drain_part: queue of history 'bbP', range from 2
    fn th_drain_part_07_2 [14] { from(7, 2, 2, drain_part); }
    /// drain_part: queue of history 'fffff', range from 0
    fn th_drain_part_09_0 [14] { from(9, 0, 7, drain_part); }
    /// drain_part: queue of history 'fffff', range from 1
    fn th_drain_part_09_1 [14] { from(9, 1, 7, drain_part); }
    /// drain_part: queue of history 'fffff', range from 2
    fn th_drain_part_09_2 [14] { from(9, 2, 7, drain_part); }
    /// drain_part: queue of history 'fffff', range from 3
    fn th_drain_part_09_3 [14] { from(9, 3, 7, drain_part); }
    /// drain_part: queue of history 'fffff', range from 4
    fn th_drain_part_09_4 [14] { from(9, 4, 7, drain_part); }
    /// drain_part: queue of history 'fffff', range from 5
    fn th_drain_part_09_5 [14] { from(9, 5, 7, drain_part); }
    /// drain_part: queue of history 'fffff', range from 6
    fn th_drain_part_09_6 [14] { from(9, 6, 7, drain_part); }
    /// drain_part: queue of history 'fffff', range from 7
    fn th_drain_part_09_7 [14] { from(9, 7, 7, drain_part); }
    /// drain_part: queue of history 'bbbPPbb', range from 0
    fn th_drain_part_10_0 [14] { from(10, 0, 4, drain_part); }
    /// drain_part: queue of history 'bbbPPbb', range from 1
    fn th_drain_part_10_1 [14] { from(10, 1, 4, drain_part); }
    /// drain_part: queue of history 'bbbPPbb', range from 2
    fn th_drain_part_10_2 [14] { from(10, 2, 4, drain_part); }
    /// drain_part: queue of history 'bbbPPbb', range from 3
    fn th_drain_part_10_3 [14] { from(10, 3, 4, drain_part); }
    /// drain_part: queue of history 'bbbPPbb', range from 4
    fn th_drain_part_10_4 [14] { from(10, 4, 4, drain_part); }
    /// drain_part: queue of history 'bbbbbfPPQ', range from 0
    fn th_drain_part_13_0 [14] { from(13, 0, 5, drain_part); }
    /// drain_part: queue of history 'bbbbbfPPQ', range from 1
    fn th_drain_part_13_1 [14] { from(13, 1, 5, drain_part); }
    /// drain_part: queue of history 'bbbbbfPPQ', range from 2
    fn th_drain_part_13_2 [14] { from(13, 2, 5, drain_part); }
    /// drain_part: queue of history 'bbbbbfPPQ', range from 3
    fn th_drain_part_13_3 [14] { from(13, 3, 5, drain_part); }
    /// drain_part: queue of history 'bbbbbfPPQ', range from 4
    fn th_drain_part_13_4 [14] { from(13, 4, 5, drain_part); }
    /// drain_part: queue of history 'bbbbbfPPQ', range from 5
    fn th_drain_part_13_5 [14] { from(13, 5, 5, drain_part); }
    /// drain_all: queue of history 'b', range from 0
    fn th_drain_all_01_0 [14] { from(1, 0, 1, drain_all); }
    /// drain_all: queue of history 'b', range from 1
    fn th_drain_all_01_1 [14] { from(1, 1, 1, drain_all); }
    /// drain_all: queue of history 'bb', range from 0
    fn th_drain_all_02_0 [14] { from(2, 0, 3, drain_all); }
    /// drain_all: queue of history 'bb', range from 1
    fn th_drain_all_02_1 [14] { from(2, 1, 3, drain_all); }
    /// drain_all: queue of history 'bb', range from 2
    fn th_drain_all_02_2 [14] { from(2, 2, 3, drain_all); }
    /// drain_all: queue of history 'bb', range from 3
    fn th_drain_all_02_3 [14] { from(2, 3, 3, drain_all); }
    /// drain_all: queue of history 'bbbbb', range from 0
    fn th_drain_all_04_0 [14] { from(4, 0, 7, drain_all); }
    /// drain_all: queue of history 'bbbbb', range from 1
    fn th_drain_all_04_1 [14] { from(4, 1, 7, drain_all); }
    /// drain_all: queue of history 'bbbbb', range from 2
    fn th_drain_all_04_2 [14] { from(4, 2, 7, drain_all); }
    /// drain_all: queue of history 'bbbbb', range from 3
    fn th_drain_all_04_3 [14] { from(4, 3, 7, drain_all); }
    /// drain_all: queue of history 'bbbbb', range from 4
    fn th_drain_all_04_4 [14] { from(4, 4, 7, drain_all); }
    /// drain_all: queue of history 'bbbbb', range from 5
    fn th_drain_all_04_5 [14] { from(4, 5, 7, drain_all); }
    /// drain_all: queue of history 'bbbbb', range from 6
    fn th_drain_all_04_6 [14] { from(4, 6, 7, drain_all); }
    /// drain_all: queue of history 'bbbbb', range from 7
    fn th_drain_all_04_7 [14] { from(4, 7, 7, drain_all); }
    /// drain_all: queue of history 'bbP', range from 0
    fn th_drain_all_07_0 [14] { from(7, 0, 2, drain_all); }
    /// drain_all: queue of history 'bbP', range from 1
    fn th_drain_all_07_1 [14] { from(7, 1, 2, drain_all); }
    /// drain_all: queue of history 'bbP', range from 2
    fn th_drain_all_07_2 [14] { from(7, 2, 2, drain_all); }
    /// drain_all: queue of history 'fffff', range from 0
    fn th_drain_all_09_0 [14] { from(9, 0, 7, drain_all); }
    /// drain_all: queue of history 'fffff', range from 1
    fn th_drain_all_09_1 [14] { from(9, 1, 7, drain_all); }
    /// drain_all: queue of history 'fffff', range from 2
    fn th_drain_all_09_2 [14] { from(9, 2, 7, drain_all); }
    /// drain_all: queue of history 'fffff', range from 3
    fn th_drain_all_09_3 [14] { from(9, 3, 7, drain_all); }
    /// drain_all: queue of history 'fffff', range from 4
    fn th_drain_all_09_4 [14] { from(9, 4, 7, drain_all); }
    /// drain_all: queue of history 'fffff', range from 5
    fn th_drain_all_09_5 [14] { from(9, 5, 7, drain_all); }
    /// drain_all: queue of history 'fffff', range from 6
    fn th_drain_all_09_6 [14] { from(9, 6, 7, drain_all); }
    /// drain_all: queue of history 'fffff', range from 7
    fn th_drain_all_09_7 [14] { from(9, 7, 7, drain_all); }
    /// drain_all: queue of history 'bbbPPbb', range from 0
    fn th_drain_all_10_0 [14] { from(10, 0, 4, drain_all); }
    /// drain_all: queue of history 'bbbPPbb', range from 1
    fn th_drain_all_10_1 [14] { from(10, 1, 4, drain_all); }
    /// drain_all: queue of history 'bbbPPbb', range from 2
    fn th_drain_all_10_2 [14] { from(10, 2, 4, drain_all); }
    /// drain_all: queue of history 'bbbPPbb', range from 3
    fn th_drain_all_10_3 [14] { from(10, 3, 4, drain_all); }
    /// drain_all: queue of history 'bbbPPbb', range from 4
    fn th_drain_all_10_4 [14] { from(10, 4, 4, drain_all); }
    /// drain_all: queue of history 'bbbbbfPPQ', range from 0
    fn th_drain_all_13_0 [14] { from(13, 0, 5, drain_all); }
    /// drain_all: queue of history 'bbbbbfPPQ', range from 1
    fn th_drain_all_13_1 [14] { from(13, 1, 5, drain_all); }
    /// drain_all: queue of history 'bbbbbfPPQ', range from 2
    fn th_drain_all_13_2 [14] { from(13, 2, 5, drain_all); }
    /// drain_all: queue of history 'bbbbbfPPQ', range from 3
    fn th_drain_all_13_3 [14] { from(13, 3, 5, drain_all); }
    /// drain_all: queue of history 'bbbbbfPPQ', range from 4
    fn th_drain_all_13_4 [14] { from(13, 4, 5, drain_all); }
    /// drain_all: queue of history 'bbbbbfPPQ', range from 5
    fn th_drain_all_13_5 [14] { from(13, 5, 5, drain_all); }
    /// replace: queue of history 'b', range from 0
    fn th_replace_01_0 [14] { from(1, 0, 1, replace); }
    /// replace: queue of history 'b', range from 1
    fn th_replace_01_1 [14] { from(1, 1, 1, replace); }
    /// replace: queue of history 'bb', range from 0
    fn th_replace_02_0 [14] { from(2, 0, 3, replace); }
    /// replace: queue of history 'bb', range from 1
    fn th_replace_02_1 [14] { from(2, 1, 3, replace); }
    /// replace: queue of history 'bb', range from 2
    fn th_replace_02_2 [14] { from(2, 2, 3, replace); }
    /// replace: queue of history 'bb', range from 3
    fn th_replace_02_3 [14] { from(2, 3, 3, replace); }
    /// replace: queue of history 'bbbbb', range from 2
    fn th_replace_04_2 [14] { from(4, 2, 7, replace); }
    /// replace: queue of history 'bbbbb', range from 3
    fn th_replace_04_3 [14] { from(4, 3, 7, replace); }
    /// replace: queue of history 'bbbbb', range from 5
    fn th_replace_04_5 [14] { from(4, 5, 7, replace); }
    /// replace: queue of history 'bbbbb', range from 6
    fn th_replace_04_6 [14] { from(4, 6, 7, replace); }
    /// replace: queue of history 'bbbbb', range from 7
    fn th_replace_04_7 [14] { from(4, 7, 7, replace); }
    /// replace: queue of history 'bbP', range from 0
    fn th_replace_07_0 [14] { from(7, 0, 2, replace); }
    /// replace: queue of history 'bbP', range from 1
    fn th_replace_07_1 [14] { from(7, 1, 2, replace); }
    /// replace: queue of history 'bbP', range from 2
    fn th_replace_07_2 [14] { from(7, 2, 2, replace); }
    /// replace: queue of history 'fffff', range from 0
    fn th_replace_09_0 [14] { from(9, 0, 7, replace); }
    /// replace: queue of history 'fffff', range from 1
    fn th_replace_09_1 [14] { from(9, 1, 7, replace); }
    /// replace: queue of history 'fffff', range from 2
    fn th_replace_09_2 [14] { from(9, 2, 7, replace); }
    /// replace: queue of history 'fffff', range from 3
    fn th_replace_09_3 [14] { from(9, 3, 7, replace); }
    /// replace: queue of history 'fffff', range from 4
    fn th_replace_09_4 [14] { from(9, 4, 7, replace); }
    /// replace: queue of history 'fffff', range from 5
    fn th_replace_09_5 [14] { from(9, 5, 7, replace); }
    /// replace: queue of history 'fffff', range from 6
    fn th_replace_09_6 [14] { from(9, 6, 7, replace); }
    /// replace: queue of history 'fffff', range from 7
    fn th_replace_09_7 [14] { from(9, 7, 7, replace); }
    /// replace: queue of history 'bbbPPbb', range from 0
    fn th_replace_10_0 [14] { from(10, 0, 4, replace); }
    /// replace: queue of history 'bbbPPbb', range from 1
    fn th_replace_10_1 [14] { from(10, 1, 4, replace); }
    /// replace: queue of history 'bbbPPbb', range from 2
    fn th_replace_10_2 [14] { from(10, 2, 4, replace); }
    /// replace: queue of history 'bbbPPbb', range from 3
    fn th_replace_10_3 [14] { from(10, 3, 4, replace); }
    /// replace: queue of history 'bbbPPbb', range from 4
    fn th_replace_10_4 [14] { from(10, 4, 4, replace); }
    /// replace: queue of history 'bbbbbfPPQ', range from 0
    fn th_replace_13_0 [14] { from(13, 0, 5, replace); }
    /// replace: queue of history 'bbbbbfPPQ', range from 1
    fn th_replace_13_1 [14] { from(13, 1, 5, replace); }
    /// replace: queue of history 'bbbbbfPPQ', range from 2
    fn th_replace_13_2 [14] { from(13, 2, 5, replace); }
    /// replace: queue of history 'bbbbbfPPQ', range from 3
    fn th_replace_13_3 [14] { from(13, 3, 5, replace); }
    /// replace: queue of history 'bbbbbfPPQ', range from 4
    fn th_replace_13_4 [14] { from(13, 4, 5, replace); }
    /// replace: queue of history 'bbbbbfPPQ', range from 5
    fn th_replace_13_5 [14] { from(13, 5, 5, replace); }
    /// replace_none: queue of history 'b', range from 0
    fn th_replace_none_01_0 [14] { from(1, 0, 1, replace_none); }
    /// replace_none: queue of history 'b', range from 1
    fn th_replace_none_01_1 [14] { from(1, 1, 1, replace_none); }
    /// replace_none: queue of history 'bb', range from 0
    fn th_replace_none_02_0 [14] { from(2, 0, 3, replace_none); }
    /// replace_none: queue of history 'bb', range from 1
    fn th_replace_none_02_1 [14] { from(2, 1, 3, replace_none); }
    /// replace_none: queue of history 'bb', range from 2
    fn th_replace_none_02_2 [14] { from(2, 2, 3, replace_none); }
    /// replace_none: queue of history 'bb', range from 3
    fn th_replace_none_02_3 [14] { from(2, 3, 3, replace_none); }
    /// replace_none: queue of history 'bbbbb', range from 0
    fn th_replace_none_04_0 [14] { from(4, 0, 7, replace_none); }
    /// replace_none: queue of history 'bbbbb', range from 1
    fn th_replace_none_04_1 [14] { from(4, 1, 7, replace_none); }
    /// replace_none: queue of history 'bbbbb', range from 3
    fn th_replace_none_04_3 [14] { from(4, 3, 7, replace_none); }
    /// replace_none: queue of history 'bbbbb', range from 4
    fn th_replace_none_04_4 [14] { from(4, 4, 7, replace_none); }
    /// replace_none: queue of history 'bbbbb', range from 5
    fn th_replace_none_04_5 [14] { from(4, 5, 7, replace_none); }
    /// replace_none: queue of history 'bbbbb', range from 6
    fn th_replace_none_04_6 [14] { from(4, 6, 7, replace_none); }
    /// replace_none: queue of history 'bbbbb', range from 7
    fn th_replace_none_04_7 [14] { from(4, 7, 7, replace_none); }
    /// replace_none: queue of history 'bbP', range from 0
    fn th_replace_none_07_0 [14] { from(7, 0, 2, replace_none); }
    /// replace_none: queue of history 'bbP', range from 1
    fn th_replace_none_07_1 [14] { from(7, 1, 2, replace_none); }
    /// replace_none: queue of history 'bbP', range from 2
    fn th_replace_none_07_2 [14] { from(7, 2, 2, replace_none); }
    /// replace_none: queue of history 'fffff', range from 0
    fn th_replace_none_09_0 [14] { from(9, 0, 7, replace_none); }
    /// replace_none: queue of history 'fffff', range from 1
    fn th_replace_none_09_1 [14] { from(9, 1, 7, replace_none); }
    /// replace_none: queue of history 'fffff', range from 2
    fn th_replace_none_09_2 [14] { from(9, 2, 7, replace_none); }
    /// replace_none: queue of history 'fffff', range from 3
    fn th_replace_none_09_3 [14] { from(9, 3, 7, replace_none); }
    /// replace_none: queue of history 'fffff', range from 4
    fn th_replace_none_09_4 [14] { from(9, 4, 7, replace_none); }
    /// replace_none: queue of history 'fffff', range from 5
    fn th_replace_none_09_5 [14] { from(9, 5, 7, replace_none); }
    /// replace_none: queue of history 'fffff', range from 6
    fn th_replace_none_09_6 [14] { from(9, 6, 7, replace_none); }
    /// replace_none: queue of history 'fffff', range from 7
    fn th_replace_none_09_7 [14] { from(9, 7, 7, replace_none); }
    /// replace_none: queue of history 'bbbPPbb', range from 0
    fn th_replace_none_10_0 [14] { from(10, 0, 4, replace_none); }
    /// replace_none: queue of history 'bbbPPbb', range from 1
    fn th_replace_none_10_1 [14] { from(10, 1, 4, replace_none); }
    /// replace_none: queue of history 'bbbPPbb', range from 2
    fn th_replace_none_10_2 [14] { from(10, 2, 4, replace_none); }
    /// replace_none: queue of history 'bbbPPbb', range from 3
    fn th_replace_none_10_3 [14] { from(10, 3, 4, replace_none); }
    /// replace_none: queue of history 'bbbPPbb', range from 4
    fn th_replace_none_10_4 [14] { from(10, 4, 4, replace_none); }
    /// replace_none: queue of history 'bbbbbfPPQ', range from 0
    fn th_replace_none_13_0 [14] { from(13, 0, 5, replace_none); }
    /// replace_none: queue of history 'bbbbbfPPQ', range from 1
    fn th_replace_none_13_1 [14] { from(13, 1, 5, replace_none); }
    /// replace_none: queue of history 'bbbbbfPPQ', range from 2
    fn th_replace_none_13_2 [14] { from(13, 2, 5, replace_none); }
    /// replace_none: queue of history 'bbbbbfPPQ', range from 3
    fn th_replace_none_13_3 [14] { from(13, 3, 5, replace_none); }
    /// replace_none: queue of history 'bbbbbfPPQ', range from 4
    fn th_replace_none_13_4 [14] { from(13, 4, 5, replace_none); }
    /// replace_none: queue of history 'bbbbbfPPQ', range from 5
    fn th_replace_none_13_5 [14] { from(13, 5, 5, replace_none); }
}
