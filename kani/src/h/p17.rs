//! C17: the std I/O traits.
use crate::q::*;
use crate::sym::*;
use crate::util::*;
use bytedata::*;
use std::io::{BufRead, ErrorKind, IoSlice, IoSliceMut, Read, Write};

const B: usize = 20;

/// One `read` into `m` bytes of room from `e`.
#[inline(always)]
fn read_one<R: Read>(v: &mut R, e: &[u8], m: usize) -> usize {
    let old: [u8; B] = any_bytes();
    let mut buf = old;
    let n = if m < e.len() { m } else { e.len() };
    let n = match v.read(&mut buf[..m]) {
        Ok(r) => {
            // a read may stop early, but not at nothing
            chk!(r <= n && (r == 0) == (n == 0), "number of bytes read");
            r
        }
        Err(_) => {
            chk!(false, "read fails");
            0
        }
    };
    chk!(same(&buf[..n], &e[..n]), "bytes read");
    chk!(same(&buf[n..], &old[n..]), "the rest of the destination is untouched");
    n
}
#[inline(always)]
fn data_read(k: u8) {
    let d: [u8; 18] = any_bytes();
    let n = if k == CHUNK { 14 } else { 17 };
    let mut v = mk(k, &d, 0, n);
    let m = any_in(0, B);
    let r = read_one(&mut v, &d[..n], m);
    chk!(v.len() == n - r && same(v.as_slice(), &d[r..n]), "bytes left to read");
    reach!();
}
/// `body` for each number in `0..=max`, fixed on each path
#[inline(always)]
fn each<F: FnMut(usize)>(max: usize, mut f: F) {
    let n = any_in(0, max);
    let mut i = 0;
    while i <= max {
        if n == i {
            f(i);
            return;
        }
        i += 1;
    }
}
/// `read_vectored` into three pieces of `a`, `b` and `c` bytes
#[inline(always)]
fn vectored<R: Read>(v: &mut R, e: &[u8], a: usize, b: usize, c: usize) -> usize {
    let old: [u8; 12] = any_bytes();
    let mut buf = old;
    let n = if a + b + c < e.len() { a + b + c } else { e.len() };
    let n = {
        let (x, y) = buf.split_at_mut(4);
        let (y, z) = y.split_at_mut(4);
        let mut io = [IoSliceMut::new(&mut x[..a]), IoSliceMut::new(&mut y[..b]), IoSliceMut::new(&mut z[..c])];
        match v.read_vectored(&mut io) {
            Ok(r) => {
                chk!(r <= n && (r == 0) == (n == 0), "number of bytes read into the pieces");
                r
            }
            Err(_) => {
                chk!(false, "read_vectored fails");
                0
            }
        }
    };
    let mut i = 0;
    while i < 12 {
        let (from, room) = if i < 4 { (0, a) } else if i < 8 { (a, b) } else { (a + b, c) };
        let at = from + i % 4;
        chk!(buf[i] == if i % 4 < room && at < n { e[at] } else { old[i] }, "pieces read");
        i += 1;
    }
    n
}
const PIECES: [(usize, usize, usize); 9] =
    [(0, 0, 0), (1, 0, 2), (0, 3, 0), (2, 2, 1), (0, 0, 4), (4, 2, 0), (3, 3, 3), (4, 4, 4), (1, 1, 1)];
#[inline(always)]
fn data_vectored(k: u8, lo: usize, hi: usize) {
    let d: [u8; 18] = any_bytes();
    let p = any_in(lo, hi);
    let mut i = lo;
    while i <= hi {
        if p == i {
            let (a, b, c) = PIECES[i];
            let mut v = mk(k, &d, 0, 5);
            let n = vectored(&mut v, &d[..5], a, b, c);
            chk!(v.len() == 5 - n && same(v.as_slice(), &d[n..5]), "bytes left to read");
            reach!();
            return;
        }
        i += 1;
    }
}
#[inline(always)]
fn is_vec(v: &[u8], x: u8, e: &[u8]) -> bool {
    v.len() == 1 + e.len() && v[0] == x && same(&v[1..], e)
}
/// `read_to_end` appends what is left
#[inline(always)]
fn to_end<R: Read>(v: &mut R, e: &[u8]) {
    let x = any_u8();
    let mut out = Vec::with_capacity(4);
    out.push(x);
    match v.read_to_end(&mut out) {
        Ok(n) => chk!(n == e.len(), "number of bytes read to the end"),
        Err(_) => chk!(false, "read_to_end fails"),
    }
    chk!(is_vec(&out, x, e), "bytes read to the end");
}
/// `read_exact`: all or an error
#[inline(always)]
fn exact<R: Read>(v: &mut R, e: &[u8], m: usize) {
    let mut buf = [0u8; 8];
    match v.read_exact(&mut buf[..m]) {
        Ok(()) => chk!(m <= e.len() && same(&buf[..m], &e[..m]), "exact read"),
        Err(x) => {
            chk!(m > e.len() && x.kind() == ErrorKind::UnexpectedEof, "exact read fails");
            core::mem::forget(x);
        }
    }
}
/// `read_until`
#[inline(always)]
fn until<R: BufRead>(v: &mut R, e: &[u8]) -> usize {
    let x = any_u8();
    let b = any_u8();
    let n = match find(e, &[b]) {
        Some(i) => i + 1,
        None => e.len(),
    };
    let mut out = Vec::with_capacity(16);
    out.push(x);
    match v.read_until(b, &mut out) {
        Ok(r) => chk!(r == n, "number of bytes read up to the delimiter"),
        Err(_) => chk!(false, "read_until fails"),
    }
    chk!(is_vec(&out, x, &e[..n]), "bytes read up to the delimiter");
    n
}
/// `fill_buf` and `consume`
#[inline(always)]
fn buffered<R: BufRead>(v: &mut R, e: &[u8], amt: usize) {
    match v.fill_buf() {
        Ok(b) => chk!(b.len() <= e.len() && b.is_empty() == e.is_empty() && same(b, &e[..b.len()]), "buffered bytes"),
        Err(_) => chk!(false, "fill_buf fails"),
    }
    v.consume(amt);
}
/// The queue of history `h` with each number of `ns`, fixed on each path.
#[inline(always)]
fn paths<F: for<'a> Fn(ByteQueue<'a>, &[u8], usize)>(h: &[u8], ns: &[usize], f: F) {
    let d: [u8; DATA] = any_bytes();
    let mut flat = [0; FLAT];
    let (q, m) = build(h, &d, 0, borrowed);
    let n = m.flat(&d, &mut flat);
    let p = any_in(0, ns.len() - 1);
    let mut i = 0;
    while i < ns.len() {
        if p == i {
            f(q, &flat[..n], ns[i]);
            reach!();
            return;
        }
        i += 1;
    }
}

harnesses! {
    /// one read into any room of 0 to 20 bytes, from values of 17 (14 inline) bytes
    fn read_borrowed [24] { data_read(BORROWED); }
    fn read_chunk [24] { data_read(CHUNK); }
    fn read_shared_sl [24] { data_read(SHARED_SL); }
    fn read_ext [24] { data_read(EXT_SL); }
    fn read_shared [24] {
        let d: [u8; 18] = any_bytes();
        let mut v = SharedBytes::from_slice(&d).into_sliced(1, 16);
        let m = any_in(0, B);
        let r = read_one(&mut v, &d[1..17], m);
        chk!(v.len() == 16 - r && same(v.as_slice(), &d[1 + r..17]), "bytes left to read");
        reach!();
    }
    fn read_empty [24] {
        let m = any_in(0, B);
        read_one(&mut ByteData::empty(), &[], m);
        read_one(&mut SharedBytes::empty(), &[], m);
        read_one(&mut ByteQueue::new(), &[], m);
        reach!();
    }
    /// one read from a queue of several chunks and nodes, into 0 to 8 bytes
    fn read_queue [14] { paths(b"bbb", &[0, 1, 2, 3, 4, 6], |mut q, e, m| { let n = read_one(&mut q, e, m); is_flat(&q, &e[n..]); }); }
    fn read_queue_more [14] { paths(b"bbbbb", &[2, 4, 6, 8], |mut q, e, m| { let n = read_one(&mut q, e, m); is_flat(&q, &e[n..]); }); }
    fn read_queue_twice [14] { paths(b"bbb", &[0, 1, 2, 3, 4], |mut q, e, m| { let n = read_one(&mut q, e, m); let l = read_one(&mut q, &e[n..], 2); is_flat(&q, &e[n + l..]); }); }
    /// read_vectored into three pieces of various sizes
    fn vectored_borrowed [16] { data_vectored(BORROWED, 0, 8); }
    fn vectored_chunk [16] { data_vectored(CHUNK, 0, 8); }
    fn vectored_ext [16] { data_vectored(EXT_SL, 3, 4); }
    fn vectored_shared [16] {
        let d: [u8; 8] = any_bytes();
        each(8, |i| {
            let (a, b, c) = PIECES[i];
            let mut v = SharedBytes::from_slice(&d).into_sliced(2, 5);
            let n = vectored(&mut v, &d[2..7], a, b, c);
            chk!(v.len() == 5 - n && same(v.as_slice(), &d[2 + n..7]), "bytes left to read");
            reach!();
        });
    }
    fn vectored_queue [16] { paths(b"bbb", &[0, 1, 2, 3, 4, 6, 8], |mut q, e, i| { let (a, b, c) = PIECES[i]; let n = vectored(&mut q, e, a, b, c); is_flat(&q, &e[n..]); }); }
    fn vectored_queue_more [16] { paths(b"bbbbb", &[3, 5, 7], |mut q, e, i| { let (a, b, c) = PIECES[i]; let n = vectored(&mut q, e, a, b, c); is_flat(&q, &e[n..]); }); }
    fn vectored_empty [16] {
        vectored(&mut ByteData::empty(), &[], 1, 2, 0);
        vectored(&mut SharedBytes::empty(), &[], 1, 2, 0);
        vectored(&mut ByteQueue::new(), &[], 1, 2, 0);
        reach!();
    }
    /// read_to_end
    fn end_data [24] {
        let d: [u8; 18] = any_bytes();
        let mut v = mk(BORROWED, &d, 0, 17);
        to_end(&mut v, &d[..17]);
        chk!(v.is_empty() && v.len() == 0, "nothing left");
        let mut v = mk(CHUNK, &d, 2, 7);
        to_end(&mut v, &d[2..7]);
        chk!(v.is_empty() && v.len() == 0, "nothing left");
        to_end(&mut ByteData::empty(), &[]);
        reach!();
    }
    fn end_ext [24] {
        let d: [u8; 18] = any_bytes();
        let mut v = mk(EXT_SL, &d, 1, 17);
        to_end(&mut v, &d[1..17]);
        chk!(v.is_empty() && v.len() == 0, "nothing left");
        reach!();
    }
    fn end_shared [24] {
        let d: [u8; 18] = any_bytes();
        let mut v = SharedBytes::from_slice(&d).into_sliced(1, 16);
        let keep = v.clone();
        to_end(&mut v, &d[1..17]);
        chk!(v.is_empty() && v.len() == 0, "nothing left");
        chk!(same(keep.as_slice(), &d[1..17]), "another handle still reads its bytes");
        to_end(&mut SharedBytes::empty(), &[]);
        reach!();
    }
    fn end_queue [16] { paths(b"bbbbb", &[0], |mut q, e, _| { to_end(&mut q, e); is_flat(&q, &[]); to_end(&mut q, &[]); }); }
    /// read_exact of 0 to 6 bytes where 5 are left (4 from a queue)
    fn exact_borrowed [12] { let d: [u8; 5] = any_bytes(); each(6, |m| { let mut v = mk(BORROWED, &d, 0, 5); exact(&mut v, &d, m); if m <= 5 { chk!(same(v.as_slice(), &d[m..]), "bytes left after an exact read"); } reach!(); }); }
    fn exact_chunk [12] { let d: [u8; 5] = any_bytes(); each(6, |m| { let mut v = mk(CHUNK, &d, 0, 5); exact(&mut v, &d, m); if m <= 5 { chk!(same(v.as_slice(), &d[m..]), "bytes left after an exact read"); } reach!(); }); }
    fn exact_shared [12] { let d: [u8; 5] = any_bytes(); each(6, |m| { let mut v = SharedBytes::from_slice(&d); exact(&mut v, &d, m); if m <= 5 { chk!(same(v.as_slice(), &d[m..]), "bytes left after an exact read"); } reach!(); }); }
    fn exact_queue [14] { paths(b"bbb", &[0, 1, 2, 4], |mut q, e, m| { exact(&mut q, e, m); is_flat(&q, &e[m..]); }); }
    fn exact_queue_short [14] { paths(b"bb", &[4], |mut q, e, m| exact(&mut q, e, m)); }
    /// read_until any delimiter, in 4 arbitrary bytes
    fn until_borrowed [10] { let d: [u8; 4] = any_bytes(); let mut v = mk(BORROWED, &d, 0, 4); let n = until(&mut v, &d); chk!(v.len() == 4 - n && same(v.as_slice(), &d[n..]), "bytes left after the delimiter"); reach!(); }
    fn until_chunk [10] { let d: [u8; 4] = any_bytes(); let mut v = mk(CHUNK, &d, 0, 4); let n = until(&mut v, &d); chk!(v.len() == 4 - n && same(v.as_slice(), &d[n..]), "bytes left after the delimiter"); reach!(); }
    fn until_shared [10] { let d: [u8; 4] = any_bytes(); let mut v = SharedBytes::from_slice(&d); let n = until(&mut v, &d); chk!(v.len() == 4 - n && same(v.as_slice(), &d[n..]), "bytes left after the delimiter"); reach!(); }
    fn until_empty [10] { until(&mut ByteData::empty(), &[]); until(&mut SharedBytes::empty(), &[]); until(&mut ByteQueue::new(), &[]); reach!(); }
    /// read_until in a queue of three chunks, the delimiter anywhere (contents fixed on each path)
    fn until_queue [14] {
        each(8, |k| {
            let d: [u8; 4] = [[9, 0, 0, 0], [0, 9, 0, 0], [0, 0, 9, 0], [0, 0, 0, 9], [0, 0, 0, 0], [9, 9, 9, 9], [0, 9, 9, 0], [9, 0, 0, 9], [0, 0, 9, 9]][k];
            let mut q = ByteQueue::new();
            q.push_back(&d[..1]);
            q.push_back(&d[1..3]);
            q.push_back(&d[3..]);
            let n = match find(&d, &[9]) {
                Some(i) => i + 1,
                None => 4,
            };
            let mut out = Vec::with_capacity(8);
            out.push(7);
            match q.read_until(9, &mut out) {
                Ok(r) => chk!(r == n, "number of bytes read up to the delimiter"),
                Err(_) => chk!(false, "read_until fails"),
            }
            chk!(out.len() == 1 + n && out[0] == 7 && same_all(&out[1..], &d[..n]), "bytes read up to the delimiter");
            is_flat(&q, &d[n..]);
            reach!();
        });
    }
    /// fill_buf and consume
    fn buf_data [20] {
        let d: [u8; 18] = any_bytes();
        let mut v = mk(BORROWED, &d, 0, 17);
        let m = any_in(0, 17);
        buffered(&mut v, &d[..17], m);
        chk!(v.len() == 17 - m && same(v.as_slice(), &d[m..17]), "bytes left after consume");
        let mut v = mk(CHUNK, &d, 0, 14);
        let m = any_in(0, 14);
        buffered(&mut v, &d[..14], m);
        chk!(v.len() == 14 - m && same(v.as_slice(), &d[m..14]), "bytes left after consume");
        reach!();
    }
    fn buf_shared [20] {
        let d: [u8; 18] = any_bytes();
        let mut v = SharedBytes::from_slice(&d);
        let m = any_in(0, 18);
        buffered(&mut v, &d, m);
        chk!(v.len() == 18 - m && same(v.as_slice(), &d[m..]), "bytes left after consume");
        reach!();
    }
    fn buf_queue [14] { paths(b"bbb", &[0, 1, 2, 3, 4], |mut q, e, m| { buffered(&mut q, e, m); is_flat(&q, &e[m..]); }); }
    fn buf_empty [14] { buffered(&mut ByteData::empty(), &[], 0); buffered(&mut SharedBytes::empty(), &[], 0); buffered(&mut ByteQueue::new(), &[], 0); reach!(); }
    /// write and write_vectored append everything, in order
    fn write_builder [24] {
        let d: [u8; 18] = any_bytes();
        let i = any_in(0, 3);
        split(i, 3, |i| {
        let (n, m) = [(0, 3), (1, 0), (4, 9), (9, 1)][i];
        let mut b = SharedBytesBuilder::with_capacity(2);
        match b.write(&d[..n]) {
            Ok(r) => chk!(r == n, "number of bytes written"),
            Err(_) => chk!(false, "write fails"),
        }
        chk!(b.write_all(&d[n..n + m]).is_ok() && b.flush().is_ok(), "write_all fails");
        chk!(b.len() == n + m && same_all(b.as_slice(), &d[..n + m]), "bytes written");
        reach!();
        });
    }
    fn write_builder_vectored [24] {
        let d: [u8; 18] = any_bytes();
        let x = any_u8();
        let mut b = SharedBytesBuilder::with_capacity(2);
        b.extend_from_slice(&[x]);
        let (n, m, l) = (any_in(0, 5), any_in(0, 5), any_in(0, 5));
        let io = [IoSlice::new(&d[..n]), IoSlice::new(&d[n..n + m]), IoSlice::new(&d[n + m..n + m + l])];
        match b.write_vectored(&io) {
            Ok(r) => chk!(r == n + m + l, "number of bytes written"),
            Err(_) => chk!(false, "write_vectored fails"),
        }
        chk!(is_vec(b.as_slice(), x, &d[..n + m + l]), "bytes written");
        reach!();
    }
    fn write_queue [20] {
        let d: [u8; 18] = any_bytes();
        each(2, |i| {
            let n = [0, 1, 14][i];
            let mut q = ByteQueue::with_item(ByteData::from_static(b"x"));
            match q.write(&d[..n]) {
                Ok(r) => chk!(r == n, "number of bytes written"),
                Err(_) => chk!(false, "write fails"),
            }
            chk!(q.flush().is_ok(), "flush");
            let mut e = [b'x'; 19];
            e[1..].copy_from_slice(&d);
            is_flat(&q, &e[..n + 1]);
            reach!();
        });
    }
    fn write_queue_long [20] {
        let d: [u8; 18] = any_bytes();
        let mut q = ByteQueue::new();
        match q.write(&d) {
            Ok(r) => chk!(r == 18, "number of bytes written"),
            Err(_) => chk!(false, "write fails"),
        }
        is_flat(&q, &d);
        reach!();
    }
    fn write_queue_vectored [20] {
        let d: [u8; 12] = any_bytes();
        each(4, |i| {
            let (a, b) = [(0, 0), (1, 0), (0, 2), (2, 3), (6, 6)][i];
            let mut q = ByteQueue::with_item(ByteData::from_static(b"x"));
            match q.write_vectored(&[IoSlice::new(&d[..a]), IoSlice::new(&d[a..a + b])]) {
                Ok(r) => chk!(r == a + b, "number of bytes written"),
                Err(_) => chk!(false, "write_vectored fails"),
            }
            let mut e = [b'x'; 13];
            e[1..].copy_from_slice(&d);
            is_flat(&q, &e[..a + b + 1]);
            reach!();
        });
    }
}
