use crate::q::*;
use crate::sym::*;
use crate::util::*;
use bytedata::*;

/// Every continuation of the history by `depth` more steps; the path forks on each step, nothing is
/// merged before the queue is checked and dropped.
fn go<'a>(mut q: ByteQueue<'a>, mut m: M, d: &'a [u8], depth: usize, mk: Mk) {
    if depth == 0 {
        verify(&q, &m, d);
        return;
    }
    let o = any_in(0, 3);
    if o == 0 {
        op(&mut q, &mut m, d, b'b', mk);
        go(q, m, d, depth - 1, mk);
        return;
    }
    if o == 1 {
        op(&mut q, &mut m, d, b'f', mk);
        go(q, m, d, depth - 1, mk);
        return;
    }
    if o == 2 {
        op(&mut q, &mut m, d, b'P', mk);
        go(q, m, d, depth - 1, mk);
        return;
    }
    op(&mut q, &mut m, d, b'Q', mk);
    go(q, m, d, depth - 1, mk);
}
#[inline(always)]
fn history(h: &[u8], depth: usize, mk: Mk) {
    let d: [u8; DATA] = any_bytes();
    let (q, m) = build(h, &d, 0, mk);
    go(q, m, &d, depth, mk);
    reach!();
}
/// The queue built by `SHAPES[a]`, joined by any of the others in `bs`, then taken apart from both ends.
#[inline(always)]
fn joined(a: usize, bs: &[usize]) {
    let d: [u8; DATA] = any_bytes();
    let (q, m) = build(SHAPES[a], &d, 0, borrowed);
    let b = any_in(0, bs.len() - 1);
    reach!();
    let mut k = 0;
    while k < bs.len() - 1 {
        if b == k {
            join(q, m, &d, bs[k]);
            return;
        }
        k += 1;
    }
    join(q, m, &d, bs[bs.len() - 1]);
}
fn join<'a>(mut q: ByteQueue<'a>, mut m: M, d: &'a [u8], b: usize) {
    let (p, w) = build(SHAPES[b], d, m.n, borrowed);
    q.append(p);
    let mut i = w.lo;
    while i < w.hi {
        m.c[m.hi] = w.c[i];
        m.hi += 1;
        i += 1;
    }
    m.n = w.n;
    verify(&q, &m, d);
    op(&mut q, &mut m, d, b'Q', borrowed);
    op(&mut q, &mut m, d, b'P', borrowed);
    op(&mut q, &mut m, d, b'b', borrowed);
    chk!(q.chunk_len() == m.hi - m.lo && q.len() == m.len(), "count after joining");
}
/// Copies and conversions of the queue built by any of the shapes.
#[inline(always)]
fn every(of: &[usize], f: impl for<'a> Fn(ByteQueue<'a>, M, &'a [u8], &[u8])) {
    let d: [u8; DATA] = any_bytes();
    let s = any_in(0, of.len() - 1);
    split(s, of.len() - 1, |s| {
        let (q, m) = build(SHAPES[of[s]], &d, 0, borrowed);
        let mut flat = [0; FLAT];
        let n = m.flat(&d, &mut flat);
        f(q, m, &d, &flat[..n]);
    });
    reach!();
}

harnesses! {
    /// history '' (b, f: push back, front; P, Q: pop front, back) and every two further steps
    fn steps_00 [14] { history(SHAPES[0], 2, borrowed); }
    /// history 'b' (b, f: push back, front; P, Q: pop front, back) and every further step
    fn steps_01 [14] { history(SHAPES[1], 1, borrowed); }
    /// history 'bb' (b, f: push back, front; P, Q: pop front, back) and every further step
    fn steps_02 [14] { history(SHAPES[2], 1, borrowed); }
    /// history 'bbbb' (b, f: push back, front; P, Q: pop front, back) and every two further steps
    fn steps_03 [14] { history(SHAPES[3], 1, borrowed); }
    /// history 'bbbbb' (b, f: push back, front; P, Q: pop front, back) and every further step
    fn steps_04 [14] { history(SHAPES[4], 1, borrowed); }
    /// history 'bbQ' (b, f: push back, front; P, Q: pop front, back) and every two further steps
    fn steps_05 [14] { history(SHAPES[5], 2, borrowed); }
    /// history 'bbPQ' (b, f: push back, front; P, Q: pop front, back) and every two further steps
    fn steps_06 [14] { history(SHAPES[6], 2, borrowed); }
    /// history 'bbP' (b, f: push back, front; P, Q: pop front, back) and every further step
    fn steps_07 [14] { history(SHAPES[7], 1, borrowed); }
    /// history 'fff' (b, f: push back, front; P, Q: pop front, back) and every two further steps
    fn steps_08 [14] { history(SHAPES[8], 1, borrowed); }
    /// history 'fffff' (b, f: push back, front; P, Q: pop front, back) and every two further steps
    fn steps_09 [14] { history(SHAPES[9], 2, borrowed); }
    /// history 'bbbPPbb' (b, f: push back, front; P, Q: pop front, back) and every two further steps
    fn steps_10 [14] { history(SHAPES[10], 2, borrowed); }
    /// history 'bbbbbbPQ' (b, f: push back, front; P, Q: pop front, back) and every further step
    fn steps_11 [14] { history(SHAPES[11], 1, borrowed); }
    /// history 'bbfPP' (b, f: push back, front; P, Q: pop front, back) and every two further steps
    fn steps_12 [14] { history(SHAPES[12], 2, borrowed); }
    /// history 'bbbbbfPPQ' (b, f: push back, front; P, Q: pop front, back) and every two further steps
    fn steps_13 [14] { history(SHAPES[13], 2, borrowed); }
    /// the queue of history 'b' joined by those of 'b', 'bbQ', 'bbP'
    fn append_01_0 [14] { joined(1, &[1, 5, 7]); }
    /// the queue of history 'b' joined by those of 'bbbb', 'fffff'
    fn append_01_1 [14] { joined(1, &[3, 9]); }
    /// the queue of history 'b' joined by those of 'bbbPPbb', 'bbfPP'
    fn append_01_2 [14] { joined(1, &[10, 12]); }
    /// the queue of history 'bb' joined by those of 'b', 'bbQ', 'bbP'
    fn append_02_0 [14] { joined(2, &[1, 5, 7]); }
    /// the queue of history 'bb' joined by those of 'bbbb', 'fffff'
    fn append_02_1 [14] { joined(2, &[3, 9]); }
    /// the queue of history 'bb' joined by those of 'bbbPPbb', 'bbfPP'
    fn append_02_2 [14] { joined(2, &[10, 12]); }
    /// the queue of history 'bbbb' joined by those of 'b', 'bbQ', 'bbP'
    fn append_03_0 [14] { joined(3, &[1, 5, 7]); }
    /// the queue of history 'bbbb' joined by those of 'bbbb', 'fffff'
    fn append_03_1 [14] { joined(3, &[3, 9]); }
    /// the queue of history 'bbbb' joined by those of 'bbbPPbb', 'bbfPP'
    fn append_03_2 [14] { joined(3, &[10, 12]); }
    /// the queue of history 'bbPQ' joined by those of 'b', 'bbQ', 'bbP'
    fn th_append_06_x [14] { joined(6, &[1, 5, 7]); }
    /// the queue of history 'bbPQ' joined by those of 'bbbb', 'fffff'
    fn th_append_06_y [14] { joined(6, &[3, 9]); }
    /// the queue of history 'bbPQ' joined by those of 'bbbPPbb', 'bbfPP'
    fn append_06_2 [14] { joined(6, &[10, 12]); }
    /// the queue of history 'bbP' joined by those of 'b', 'bbQ', 'bbP'
    fn append_07_0 [14] { joined(7, &[1, 5, 7]); }
    /// the queue of history 'bbP' joined by those of 'bbbb', 'fffff'
    fn append_07_1 [14] { joined(7, &[3, 9]); }
    /// the queue of history 'bbP' joined by those of 'bbbPPbb', 'bbfPP'
    fn append_07_2 [14] { joined(7, &[10, 12]); }
    fn th_append_00_00 [14] { joined(0, &[0, 1]); }
    fn th_append_00_02 [14] { joined(0, &[2, 3]); }
    fn th_append_00_04 [14] { joined(0, &[4, 5]); }
    fn th_append_00_06 [14] { joined(0, &[6, 7]); }
    fn th_append_00_08 [14] { joined(0, &[8, 9]); }
    fn th_append_00_10 [14] { joined(0, &[10, 11]); }
    fn th_append_00_12 [14] { joined(0, &[12, 13]); }
    fn th_append_01_00 [14] { joined(1, &[0, 1]); }
    fn th_append_01_02 [14] { joined(1, &[2, 3]); }
    fn th_append_01_04 [14] { joined(1, &[4, 5]); }
    fn th_append_01_06 [14] { joined(1, &[6, 7]); }
    fn th_append_01_08 [14] { joined(1, &[8, 9]); }
    fn th_append_01_10 [14] { joined(1, &[10, 11]); }
    fn th_append_01_12 [14] { joined(1, &[12, 13]); }
    fn th_append_02_00 [14] { joined(2, &[0, 1]); }
    fn th_append_02_02 [14] { joined(2, &[2, 3]); }
    fn th_append_02_04 [14] { joined(2, &[4, 5]); }
    fn th_append_02_06 [14] { joined(2, &[6, 7]); }
    fn th_append_02_08 [14] { joined(2, &[8, 9]); }
    fn th_append_02_10 [14] { joined(2, &[10, 11]); }
    fn th_append_02_12 [14] { joined(2, &[12, 13]); }
    fn th_append_03_00 [14] { joined(3, &[0, 1]); }
    fn th_append_03_02 [14] { joined(3, &[2, 3]); }
    fn th_append_03_04 [14] { joined(3, &[4, 5]); }
    fn th_append_03_06 [14] { joined(3, &[6, 7]); }
    fn th_append_03_08 [14] { joined(3, &[8, 9]); }
    fn th_append_03_10 [14] { joined(3, &[10, 11]); }
    fn th_append_03_12 [14] { joined(3, &[12, 13]); }
    fn th_append_04_00 [14] { joined(4, &[0, 1]); }
    fn th_append_04_02 [14] { joined(4, &[2, 3]); }
    fn th_append_04_04 [14] { joined(4, &[4, 5]); }
    fn th_append_04_06 [14] { joined(4, &[6, 7]); }
    fn th_append_04_08 [14] { joined(4, &[8, 9]); }
    fn th_append_04_10 [14] { joined(4, &[10, 11]); }
    fn th_append_04_12 [14] { joined(4, &[12, 13]); }
    fn th_append_05_00 [14] { joined(5, &[0, 1]); }
    fn th_append_05_02 [14] { joined(5, &[2, 3]); }
    fn th_append_05_04 [14] { joined(5, &[4, 5]); }
    fn th_append_05_06 [14] { joined(5, &[6, 7]); }
    fn th_append_05_08 [14] { joined(5, &[8, 9]); }
    fn th_append_05_10 [14] { joined(5, &[10, 11]); }
    fn th_append_05_12 [14] { joined(5, &[12, 13]); }
    fn th_append_06_00 [14] { joined(6, &[0, 1]); }
    fn th_append_06_02 [14] { joined(6, &[2, 3]); }
    fn th_append_06_04 [14] { joined(6, &[4, 5]); }
    fn th_append_06_06 [14] { joined(6, &[6, 7]); }
    fn th_append_06_08 [14] { joined(6, &[8, 9]); }
    fn th_append_06_10 [14] { joined(6, &[10, 11]); }
    fn th_append_06_12 [14] { joined(6, &[12, 13]); }
    fn th_append_07_00 [14] { joined(7, &[0, 1]); }
    fn th_append_07_02 [14] { joined(7, &[2, 3]); }
    fn th_append_07_04 [14] { joined(7, &[4, 5]); }
    fn th_append_07_06 [14] { joined(7, &[6, 7]); }
    fn th_append_07_08 [14] { joined(7, &[8, 9]); }
    fn th_append_07_10 [14] { joined(7, &[10, 11]); }
    fn th_append_07_12 [14] { joined(7, &[12, 13]); }
    fn th_append_08_00 [14] { joined(8, &[0, 1]); }
    fn th_append_08_02 [14] { joined(8, &[2, 3]); }
    fn th_append_08_04 [14] { joined(8, &[4, 5]); }
    fn th_append_08_06 [14] { joined(8, &[6, 7]); }
    fn th_append_08_08 [14] { joined(8, &[8, 9]); }
    fn th_append_08_10 [14] { joined(8, &[10, 11]); }
    fn th_append_08_12 [14] { joined(8, &[12, 13]); }
    fn th_append_09_00 [14] { joined(9, &[0, 1]); }
    fn th_append_09_02 [14] { joined(9, &[2, 3]); }
    fn th_append_09_04 [14] { joined(9, &[4, 5]); }
    fn th_append_09_06 [14] { joined(9, &[6, 7]); }
    fn th_append_09_08 [14] { joined(9, &[8, 9]); }
    fn th_append_09_10 [14] { joined(9, &[10, 11]); }
    fn th_append_09_12 [14] { joined(9, &[12, 13]); }
    fn th_append_10_00 [14] { joined(10, &[0, 1]); }
    fn th_append_10_02 [14] { joined(10, &[2, 3]); }
    fn th_append_10_04 [14] { joined(10, &[4, 5]); }
    fn th_append_10_06 [14] { joined(10, &[6, 7]); }
    fn th_append_10_08 [14] { joined(10, &[8, 9]); }
    fn th_append_10_10 [14] { joined(10, &[10, 11]); }
    fn th_append_10_12 [14] { joined(10, &[12, 13]); }
    fn th_append_11_00 [14] { joined(11, &[0, 1]); }
    fn th_append_11_02 [14] { joined(11, &[2, 3]); }
    fn th_append_11_04 [14] { joined(11, &[4, 5]); }
    fn th_append_11_06 [14] { joined(11, &[6, 7]); }
    fn th_append_11_08 [14] { joined(11, &[8, 9]); }
    fn th_append_11_10 [14] { joined(11, &[10, 11]); }
    fn th_append_11_12 [14] { joined(11, &[12, 13]); }
    fn th_append_12_00 [14] { joined(12, &[0, 1]); }
    fn th_append_12_02 [14] { joined(12, &[2, 3]); }
    fn th_append_12_04 [14] { joined(12, &[4, 5]); }
    fn th_append_12_06 [14] { joined(12, &[6, 7]); }
    fn th_append_12_08 [14] { joined(12, &[8, 9]); }
    fn th_append_12_10 [14] { joined(12, &[10, 11]); }
    fn th_append_12_12 [14] { joined(12, &[12, 13]); }
    fn th_append_13_00 [14] { joined(13, &[0, 1]); }
    fn th_append_13_02 [14] { joined(13, &[2, 3]); }
    fn th_append_13_04 [14] { joined(13, &[4, 5]); }
    fn th_append_13_06 [14] { joined(13, &[6, 7]); }
    fn th_append_13_08 [14] { joined(13, &[8, 9]); }
    fn th_append_13_10 [14] { joined(13, &[10, 11]); }
    fn th_append_13_12 [14] { joined(13, &[12, 13]); }
    /// with inline chunks
    fn steps_inline [14] { history(b"bbbbb", 1, inline); }
    /// clone: equal chunks, and the two queues are independent
    fn clone_a [14] {
        every(&[1, 4, 10], |q, m, d, _| {
            let p = q.clone();
            drop(q);
            verify(&p, &m, d);
        });
    }
    fn clone_b [14] {
        every(&[2, 7], |q, m, d, _| {
            let mut p = q.clone();
            let mut w = m;
            op(&mut p, &mut w, d, b'P', borrowed);
            verify(&q, &m, d);
        });
    }
    /// conversion to one Vec
    fn to_vec_a [26] { every(&[0, 1, 2, 6], |q, _, _, flat| { let v: Vec<u8> = q.into(); chk!(same_all(&v, flat), "bytes"); }); }
    fn to_vec_b [26] { every(&[9, 12], |q, _, _, flat| { let v: Vec<u8> = q.into(); chk!(same_all(&v, flat), "bytes"); }); }
    fn th_to_vec_c [26] { every(&[3, 4, 5, 7, 8], |q, _, _, flat| { let v: Vec<u8> = q.into(); chk!(same_all(&v, flat), "bytes"); }); }
    /// owned chunk iteration from the front
    fn owned_chunks [14] {
        every(&[1, 4, 6, 10], |q, m, d, _| {
            let mut it = q.into_iter();
            let mut i = m.lo;
            while i < m.hi {
                chk!(it.len() == m.hi - i, "chunks left");
                match it.next() {
                    Some(x) => chk!(same_all(x.as_slice(), bytes(d, m.c[i] as usize)), "chunk"),
                    None => chk!(false, "ends early"),
                }
                i += 1;
            }
            chk!(it.next().is_none() && it.next_back().is_none(), "ends late");
        });
    }
    /// owned chunk iteration from the back
    fn owned_chunks_back [14] {
        every(&[1, 4, 6, 10], |q, m, d, _| {
            let mut it = q.into_iter();
            let mut i = m.hi;
            while i > m.lo {
                i -= 1;
                match it.next_back() {
                    Some(x) => chk!(same_all(x.as_slice(), bytes(d, m.c[i] as usize)), "chunk"),
                    None => chk!(false, "ends early"),
                }
            }
            chk!(it.next().is_none() && it.next_back().is_none(), "ends late");
        });
    }
    /// collecting from and extending by an iterator of byte values
    fn collected [14] {
        let d: [u8; DATA] = any_bytes();
        let mut q: ByteQueue = [0usize, 1, 2, 3, 4].into_iter().map(|i| borrowed(bytes(&d, i))).collect();
        is_flat(&q, &[d[0], d[2], d[3], d[4], d[6], d[7], d[8]]);
        q.extend([5usize, 6].into_iter().map(|i| borrowed(bytes(&d, i))));
        is_flat(&q, &[d[0], d[2], d[3], d[4], d[6], d[7], d[8], d[10], d[11], d[12]]);
        chk!(q.chunk_len() == 7, "chunks");
        reach!();
    }
    /// extending by slices
    fn extend_slices [14] {
        let d: [u8; 6] = any_bytes();
        let mut q = ByteQueue::from(&d[..1]);
        q.extend((0..3).map(|i| &d[[1, 3, 3][i]..[3, 3, 6][i]]));
        is_flat(&q, &d);
        reach!();
    }
    /// extending by str
    fn extend_strs [14] {
        let d: [u8; 6] = any_bytes();
        let mut q = ByteQueue::from(&d[..1]);
        q.extend((0..3).map(|i| text(&d[[1, 3, 3][i]..[3, 3, 6][i]])));
        is_flat(&q, &d);
        reach!();
    }
    /// extending by text values
    fn extend_texts [14] {
        let d: [u8; 6] = any_bytes();
        let mut q = ByteQueue::from(&d[..1]);
        q.extend([StringData::from_borrowed(text(&d[1..3])), StringData::empty(), StringData::from_borrowed(text(&d[3..6]))]);
        is_flat(&q, &d);
        reach!();
    }
    /// extending by Vecs
    fn extend_vecs [14] {
        let d: [u8; 6] = any_bytes();
        let mut q = ByteQueue::from(&d[..1]);
        q.extend(std::iter::once(d[1..6].to_vec()));
        q.extend(std::iter::once(Vec::new()));
        is_flat(&q, &d);
        reach!();
    }
    /// extending by Strings
    fn extend_strings [14] {
        let d: [u8; 6] = any_bytes();
        let mut q = ByteQueue::from(&d[..1]);
        q.extend(std::iter::once(unsafe { String::from_utf8_unchecked(d[1..6].to_vec()) }));
        q.extend(std::iter::once(String::new()));
        is_flat(&q, &d);
        reach!();
    }
    /// formatting into a queue
    fn write_str [14] {
        use core::fmt::Write;
        let d: [u8; 4] = any_bytes();
        let mut q = ByteQueue::from(&d[..1]);
        chk!(q.write_str(text(&d[1..4])).is_ok() && q.write_str("").is_ok(), "write_str");
        is_flat(&q, &d);
        reach!();
    }
    /// queues of one value, by every constructor
    fn single [20] {
        let d: [u8; 17] = any_bytes();
        lens(17, |n| {
            is_flat(&ByteQueue::with_item(ByteData::from_borrowed(&d[..n])), &d[..n]);
            is_flat(&ByteQueue::from(ByteData::from_borrowed(&d[..n])), &d[..n]);
            is_flat(&ByteQueue::from(&d[..n]), &d[..n]);
            is_flat(&ByteQueue::from(std::borrow::Cow::Borrowed(&d[..n])), &d[..n]);
        });
        reach!();
    }
    fn single_owned [20] {
        let d: [u8; 17] = any_bytes();
        let n = if any_bool() { 0 } else { 3 };
        split(n, 3, |n| {
            is_flat(&ByteQueue::from(d[..n].to_vec()), &d[..n]);
            is_flat(&ByteQueue::from(std::borrow::Cow::<[u8]>::Owned(d[..n].to_vec())), &d[..n]);
        });
        reach!();
    }
    /// an empty item leaves an empty queue that works on
    fn empty_item [14] {
        let d: [u8; DATA] = any_bytes();
        let q = ByteQueue::with_item(ByteData::empty());
        go(q, M::new(0), &d, 1, borrowed);
        reach!();
    }
    /// conversion to one byte value
    fn to_data_0 [26] { every(&[0], |q, _, _, flat| { let v: ByteData = q.into(); chk!(same_all(v.as_slice(), flat), "bytes"); }); }
    fn to_data_1 [26] { every(&[1], |q, _, _, flat| { let v: ByteData = q.into(); chk!(same_all(v.as_slice(), flat), "bytes"); }); }
    fn to_data_3 [26] { every(&[7], |q, _, _, flat| { let v: ByteData = q.into(); chk!(same_all(v.as_slice(), flat), "bytes"); }); }
    fn to_data_4 [26] { every(&[3], |q, _, _, flat| { let v: ByteData = q.into(); chk!(same_all(v.as_slice(), flat), "bytes"); }); }
    /// shared chunks are released with the queue
    fn shared_drop [14] {
        let d: [u8; DATA] = any_bytes();
        let (q, _m) = build(b"b", &d, 0, shared);
        drop(q);
        reach!();
    }
    fn shared_pop [14] {
        let d: [u8; DATA] = any_bytes();
        let (mut q, mut m) = build(b"b", &d, 0, shared);
        op(&mut q, &mut m, &d, b'P', shared);
        reach!();
    }
    /// nodes of the real size (15): a full node at either end, and a history through it
    fn big_full [40] {
        let d: [u8; DATA] = any_bytes();
        let (mut q, mut m) = build(b"bbbbbbbbbbbbbbbbbb", &d, 0, borrowed);
        op(&mut q, &mut m, &d, b'P', borrowed);
        op(&mut q, &mut m, &d, b'P', borrowed);
        op(&mut q, &mut m, &d, b'b', borrowed);
        verify(&q, &m, &d);
        reach!();
    }
    fn big_front [40] {
        let d: [u8; DATA] = any_bytes();
        let (mut q, mut m) = build(b"ffffffffffffffffff", &d, 0, borrowed);
        op(&mut q, &mut m, &d, b'Q', borrowed);
        op(&mut q, &mut m, &d, b'f', borrowed);
        verify(&q, &m, &d);
        reach!();
    }
    fn th_steps_00 [14] { history(SHAPES[0], 3, borrowed); }
    fn th_steps_01 [14] { history(SHAPES[1], 3, borrowed); }
    fn th_steps_02 [14] { history(SHAPES[2], 3, borrowed); }
    fn th_steps_03 [14] { history(SHAPES[3], 3, borrowed); }
    fn th_steps_04 [14] { history(SHAPES[4], 3, borrowed); }
    fn th_steps_05 [14] { history(SHAPES[5], 3, borrowed); }
    fn th_steps_06 [14] { history(SHAPES[6], 3, borrowed); }
    fn th_steps_07 [14] { history(SHAPES[7], 3, borrowed); }
    fn th_steps_08 [14] { history(SHAPES[8], 3, borrowed); }
    fn th_steps_09 [14] { history(SHAPES[9], 3, borrowed); }
    fn th_steps_10 [14] { history(SHAPES[10], 3, borrowed); }
    fn th_steps_11 [14] { history(SHAPES[11], 3, borrowed); }
    fn th_steps_12 [14] { history(SHAPES[12], 3, borrowed); }
    fn th_steps_13 [14] { history(SHAPES[13], 3, borrowed); }
}
