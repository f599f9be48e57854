//! C18: conversions to and from the bytes crate, and its buffer traits.
use crate::q::{borrowed, build, is_flat, DATA, FLAT};
use crate::sym::*;
use crate::util::*;
use bytedata::*;
use bytes_1::{Buf, BufMut, Bytes, BytesMut};

/// `body` for each number in `0..=max`, fixed on each path
#[inline(always)]
fn each<F: FnMut(usize)>(max: usize, mut f: F) {
    let n = any_in(0, max);
    let mut i = 0;
    while i <= max {
        if n == i {
            f(i);
            return;
        }
        i += 1;
    }
}
#[inline(always)]
fn bis(b: &Bytes, w: &[u8]) {
    chk!(b.len() == w.len() && same_all(b, w), "bytes of a Bytes");
}
/// A value becomes a Bytes; its clone outlives it.
#[inline(always)]
fn to(k: u8, lo: usize, hi: usize) {
    let d: [u8; 18] = any_bytes();
    let b = Bytes::from(mk(k, &d, lo, hi));
    bis(&b, &d[lo..hi]);
    reach!();
}
/// One operation on a Bytes over shared storage, next to another handle `c`; `o` says which goes first.
#[inline(always)]
fn op(mut b: Bytes, c: SharedBytes, w: &[u8], k: usize, o: bool) {
    let n = w.len();
    let (x, wx): (Bytes, &[u8]) = match k {
        0 => {
            let x = b.clone();
            (x, w)
        }
        1 => (b.slice(1..n - 1), &w[1..n - 1]),
        2 => {
            b.truncate(2);
            bis(&b, &w[..2]);
            (b.clone(), &w[..2])
        }
        3 => {
            let x = b.split_off(2);
            bis(&b, &w[..2]);
            (x, &w[2..])
        }
        4 => {
            let x = b.split_to(2);
            bis(&b, &w[2..]);
            (x, &w[..2])
        }
        5 => {
            b.advance(2);
            bis(&b, &w[2..]);
            (b.slice(1..), &w[3..])
        }
        6 => {
            b.clear();
            bis(&b, &[]);
            (b.clone(), &[])
        }
        7 => (b.slice(2..2), &[]),
        _ => {
            chk!(!b.is_unique(), "not the only handle");
            (b.slice(n - 1..), &w[n - 1..])
        }
    };
    if o {
        drop(b);
        bis(&x, wx);
        drop(c);
        bis(&x, wx);
    } else {
        drop(c);
        drop(x);
        let m = b.len();
        chk!(m <= n, "bytes left");
    }
}
#[inline(always)]
fn ops(lo: usize, hi: usize) {
    let d: [u8; 5] = any_bytes();
    let s = SharedBytes::from_slice(&d);
    let c = s.clone();
    let b = Bytes::from(s);
    bis(&b, &d);
    let o = any_bool();
    let k = any_in(lo, hi);
    reach!();
    let mut i = lo;
    while i <= hi {
        if k == i {
            if o {
                op(b, c, &d, i, true);
            } else {
                op(b, c, &d, i, false);
            }
            return;
        }
        i += 1;
    }
}
/// A Bytes over shared storage is turned into a Vec or BytesMut, the only handle or not.
#[inline(always)]
fn own(k: usize, alone: bool) {
    let d: [u8; 5] = any_bytes();
    let s = SharedBytes::from_slice(&d);
    let c = s.clone();
    let mut b = Bytes::from(s.into_sliced(1, 3));
    if alone {
        drop(c);
        chk!(b.is_unique(), "the only handle");
        b = fin(b, k, &d);
        drop(b);
    } else {
        chk!(!b.is_unique(), "not the only handle");
        b = fin(b, k, &d);
        chk!(same_all(c.as_slice(), &d), "the other handle is untouched");
        drop(c);
        drop(b);
    }
    reach!();
}
#[inline(always)]
fn fin(b: Bytes, k: usize, d: &[u8]) -> Bytes {
    let u = b.is_unique();
    match k {
        0 => {
            let v: Vec<u8> = b.into();
            chk!(same_all(&v, &d[1..4]), "Vec");
            Bytes::new()
        }
        1 => {
            let mut v: BytesMut = b.into();
            v[0] = 9;
            chk!(v.len() == 3 && v[0] == 9 && same_all(&v[1..], &d[2..4]), "BytesMut");
            Bytes::new()
        }
        _ => match b.try_into_mut() {
            Ok(v) => {
                chk!(u && same_all(&v, &d[1..4]), "try_into_mut");
                Bytes::new()
            }
            Err(b) => {
                chk!(!u && same_all(&b, &d[1..4]), "try_into_mut gives it back");
                b
            }
        },
    }
}
/// A Bytes of kind `k` holding `w[1..4]`.
#[inline(always)]
fn bytes_of(k: usize, w: &[u8]) -> Bytes {
    match k {
        0 => Bytes::copy_from_slice(&w[1..4]),
        1 => {
            let mut v = Vec::with_capacity(9);
            v.extend_from_slice(w);
            Bytes::from(v).slice(1..4)
        }
        2 => Bytes::from(SharedBytes::from_slice(w).into_sliced(1, 3)),
        _ => BytesMut::from(&w[1..4]).freeze(),
    }
}

/// What a buffer with `e` left must report; then `n` bytes are passed over.
#[inline(always)]
fn reports<B: Buf>(v: &B, e: &[u8]) {
    chk!(v.remaining() == e.len(), "remaining");
    chk!(v.has_remaining() == !e.is_empty(), "has_remaining");
    let c = v.chunk();
    chk!(c.len() <= e.len() && c.is_empty() == e.is_empty(), "length of chunk");
    chk!(same(c, &e[..c.len()]), "chunk");
}
#[inline(always)]
fn step<B: Buf>(v: &mut B, e: &[u8], n: usize) {
    reports(v, e);
    v.advance(n);
    reports(v, &e[n..]);
}
/// copy_to_bytes: the first bytes, whose handle stays good when the buffer moves on
#[inline(always)]
fn copy<B: Buf>(mut v: B, e: &[u8], n: usize) {
    let b = v.copy_to_bytes(n);
    bis(&b, &e[..n]);
    reports(&v, &e[n..]);
    drop(v);
    bis(&b, &e[..n]);
}
/// typed reads and copy_to_slice, over chunk ends
#[inline(always)]
fn typed<B: Buf>(mut v: B, e: &[u8]) {
    chk!(v.get_u8() == e[0], "get_u8");
    chk!(v.get_u16() == u16::from_be_bytes([e[1], e[2]]), "get_u16");
    let mut o = [0; 2];
    v.copy_to_slice(&mut o);
    chk!(o[0] == e[3] && o[1] == e[4], "copy_to_slice");
    chk!(v.get_u16_le() == u16::from_le_bytes([e[5], e[6]]), "get_u16_le");
    reports(&v, &e[7..]);
}
/// The queue of history `h` with each number of `ns`, fixed on each path.
#[inline(always)]
fn paths<F: for<'a> Fn(ByteQueue<'a>, &[u8], usize)>(h: &[u8], ns: &[usize], f: F) {
    let d: [u8; DATA] = any_bytes();
    let mut flat = [0; FLAT];
    let (q, m) = build(h, &d, 0, borrowed);
    let n = m.flat(&d, &mut flat);
    let p = any_in(0, ns.len() - 1);
    let mut i = 0;
    while i < ns.len() {
        if p == i {
            f(q, &flat[..n], ns[i]);
            reach!();
            return;
        }
        i += 1;
    }
}
/// `put` from a queue: `extend` of each chunk
#[inline(always)]
fn built(b: &SharedBytesBuilder, a: &[u8], c: &[u8]) {
    chk!(b.len() == a.len() + c.len() && same(&b[..a.len()], a) && same(&b[a.len()..], c), "bytes appended");
}
/// any appending step on a builder that holds `a`
#[inline(always)]
fn put(mut b: SharedBytesBuilder, a: &[u8], d: &[u8], k: usize) {
    match k {
        0 => {
            b.put_slice(d);
            built(&b, a, d);
        }
        1 => {
            let x = d[0];
            b.put_bytes(x, 5);
            built(&b, a, &[x; 5]);
        }
        2 => {
            b.put(d);
            built(&b, a, d);
        }
        3 => {
            b.put(Buf::chain(ByteData::from_borrowed(&d[..2]), ByteData::from_chunk_slice(&d[2..])));
            built(&b, a, d);
        }
        4 => {
            b.put_u8(d[0]);
            b.put_u16(u16::from_be_bytes([d[1], d[2]]));
            built(&b, a, &d[..3]);
        }
        5 => {
            b.put_bytes(7, 0);
            b.put_slice(&[]);
            b.put(&[][..]);
            built(&b, a, &[]);
        }
        _ => {
            let n = d.len();
            let mut at = 0;
            while at < n {
                let l = {
                    let c = b.chunk_mut();
                    let l = if c.len() < n - at { c.len() } else { n - at };
                    chk!(l > 0, "room to write to");
                    c[..l].copy_from_slice(&d[at..at + l]);
                    l
                };
                unsafe { b.advance_mut(l) };
                at += l;
            }
            built(&b, a, d);
        }
    }
    let s = b.build();
    chk!(s.len() >= a.len() && same(&s.as_slice()[..a.len()], a), "built");
}
#[inline(always)]
fn puts(lo: usize, hi: usize) {
    let d: [u8; 5] = any_bytes();
    let a: [u8; 3] = any_bytes();
    let cap = any_in(0, 3);
    split(cap, 3, |i| {
        each(hi - lo, |k| {
            let (cap, n) = [(0, 0), (3, 3), (4, 2), (20, 3)][i];
            let mut b = SharedBytesBuilder::with_capacity(cap);
            b.extend_from_slice(&a[..n]);
            chk!(b.remaining_mut() >= 5, "room to write to");
            put(b, &a[..n], &d, lo + k);
            reach!();
        });
    });
}

harnesses! {
    /// a value of each representation becomes a Bytes with the same bytes
    fn to_borrowed [20] { to(BORROWED, 0, 17); }
    fn to_borrowed_short [20] { to(BORROWED, 3, 4); }
    fn to_chunk [20] { to(CHUNK, 0, 14); }
    fn to_chunk_short [20] { to(CHUNK, 0, 1); }
    fn to_none [20] { let d: [u8; 5] = any_bytes(); bis(&Bytes::from(mk(BORROWED, &d, 2, 2)), &[]); bis(&Bytes::from(mk(CHUNK, &d, 2, 2)), &[]); bis(&Bytes::from(SharedBytes::from_slice(&d).into_sliced(2, 0)), &[]); reach!(); }
    fn th_to_shared [20] { to(SHARED, 0, 17); }
    fn to_shared_short [20] { to(SHARED, 0, 2); }
    fn th_to_shared_sl [20] { to(SHARED_SL, 2, 17); }
    fn to_ext [20] { to(EXT, 0, 17); }
    fn th_to_ext_sl [20] { to(EXT_SL, 1, 17); }
    fn to_static [20] {
        let b = Bytes::from(ByteData::from_static(b"a static text of some length"));
        chk!(same_all(&b, b"a static text of some length"), "static bytes");
        let c = b.slice(2..8);
        drop(b);
        chk!(same_all(&c, b"static"), "static bytes");
        bis(&Bytes::from(ByteData::empty()), &[]);
        bis(&Bytes::from(SharedBytes::empty()), &[]);
        bis(&Bytes::from(ByteQueue::new()), &[]);
        reach!();
    }
    /// a Bytes inside an external value comes back, whole or sliced
    fn to_inner [20] {
        let v = ByteData::from_external(Bytes::from_static(b"0123456789abcdefg"));
        bis(&Bytes::from(v), b"0123456789abcdefg");
        reach!();
    }
    fn th_to_inner_sl [20] {
        let mut v = ByteData::from_external(Bytes::from_static(b"0123456789abcdefg"));
        v.make_sliced(1..16);
        bis(&Bytes::from(v), b"123456789abcdef");
        reach!();
    }
    fn th_to_inner_shared [20] {
        let d: [u8; 17] = any_bytes();
        let v = ByteData::from_external(Bytes::from(SharedBytes::from_slice(&d)));
        bis(&Bytes::from(v), &d);
        reach!();
    }
    /// every operation on a Bytes over shared storage, next to another handle, dropped in both orders
    fn ops_clone [8] { ops(0, 0); }
    fn ops_slice [8] { ops(1, 1); }
    fn ops_truncate [8] { ops(2, 2); }
    fn ops_split [8] { ops(3, 4); }
    fn ops_advance [8] { ops(5, 5); }
    fn ops_clear [8] { ops(6, 7); }
    fn ops_unique [8] { ops(8, 8); }
    /// it is turned into a Vec or a BytesMut
    fn own_vec [8] { if any_bool() { own(0, true) } else { own(0, false) } }
    fn own_mut [8] { if any_bool() { own(1, true) } else { own(1, false) } }
    fn own_try [8] { if any_bool() { own(2, true) } else { own(2, false) } }
    /// a Bytes becomes a value, a shared buffer, a queue
    fn from_static [20] {
        let b = Bytes::from_static(b"a static text of some length");
        let c = b.slice(2..8);
        let v = ByteData::from(b);
        chk!(holds_all(&v, b"a static text of some length"), "static bytes");
        let w = ByteData::from(c);
        chk!(holds_all(&w, b"static"), "static bytes");
        chk!(ByteData::from(Bytes::new()).is_empty(), "empty");
        chk!(SharedBytes::from(Bytes::new()).is_empty(), "empty");
        chk!(ByteQueue::from(Bytes::new()).is_empty(), "empty");
        reach!();
    }
    fn from_copied [20] { let d: [u8; 5] = any_bytes(); let b = bytes_of(0, &d); let c = b.clone(); let v = ByteData::from(b); chk!(holds_all(&v, &d[1..4]), "value"); drop(v); bis(&c, &d[1..4]); reach!(); }
    fn from_vec [20] { let d: [u8; 5] = any_bytes(); let b = bytes_of(1, &d); let c = b.clone(); let v = ByteData::from(b); drop(c); chk!(holds_all(&v, &d[1..4]), "value"); reach!(); }
    fn from_shared [20] { let d: [u8; 5] = any_bytes(); let b = bytes_of(2, &d); let c = b.clone(); let v = ByteData::from(b); drop(c); chk!(holds_all(&v, &d[1..4]), "value"); reach!(); }
    fn from_mut [20] { let d: [u8; 5] = any_bytes(); let v = ByteData::from(bytes_of(3, &d)); chk!(holds_all(&v, &d[1..4]), "value"); reach!(); }
    fn from_to_shared [20] { let d: [u8; 5] = any_bytes(); each(3, |k| { let s = SharedBytes::from(bytes_of(k, &d)); chk!(same_all(s.as_slice(), &d[1..4]), "shared"); reach!(); }); }
    fn from_to_queue [20] { let d: [u8; 5] = any_bytes(); let q = ByteQueue::from(bytes_of(0, &d)); is_flat(&q, &d[1..4]); reach!(); }
    /// remaining, chunk, advance
    fn buf_borrowed [24] { let d: [u8; 17] = any_bytes(); let n = any_in(0, 17); step(&mut mk(BORROWED, &d, 0, 17), &d, n); reach!(); }
    fn buf_chunk [24] { let d: [u8; 14] = any_bytes(); let n = any_in(0, 14); step(&mut mk(CHUNK, &d, 0, 14), &d, n); reach!(); }
    fn buf_ext [24] { let d: [u8; 17] = any_bytes(); let n = any_in(0, 17); step(&mut mk(EXT, &d, 0, 17), &d, n); reach!(); }
    fn buf_shared [24] { let d: [u8; 17] = any_bytes(); let n = any_in(0, 17); step(&mut SharedBytes::from_slice(&d), &d, n); reach!(); }
    fn buf_shared_val [24] { let d: [u8; 9] = any_bytes(); let n = any_in(0, 7); step(&mut mk(SHARED_SL, &d, 1, 8), &d[1..8], n); reach!(); }
    fn buf_queue [14] { paths(b"bbb", &[0, 1, 2, 3, 4], |mut q, e, n| { step(&mut q, e, n); is_flat(&q, &e[n..]); }); }
    fn buf_queue_more [14] { paths(b"bbbbb", &[0, 3, 4, 5, 7], |mut q, e, n| { step(&mut q, e, n); is_flat(&q, &e[n..]); }); }
    fn buf_queue_wrap [14] { paths(b"bbPfb", &[1, 2, 3, 4], |mut q, e, n| { step(&mut q, e, n); is_flat(&q, &e[n..]); }); }
    /// copy_to_bytes
    fn copy_borrowed [20] { let d: [u8; 17] = any_bytes(); copy(mk(BORROWED, &d, 0, 17), &d, 2); reach!(); }
    fn copy_borrowed_all [20] { let d: [u8; 17] = any_bytes(); copy(mk(BORROWED, &d, 0, 17), &d, 17); reach!(); }
    fn copy_none [20] { let d: [u8; 5] = any_bytes(); copy(mk(BORROWED, &d, 0, 5), &d, 0); copy(mk(CHUNK, &d, 0, 5), &d, 0); copy(ByteData::empty(), &[], 0); reach!(); }
    fn copy_chunk [20] { let d: [u8; 5] = any_bytes(); copy(mk(CHUNK, &d, 0, 5), &d, 2); reach!(); }
    fn copy_chunk_all [20] { let d: [u8; 5] = any_bytes(); copy(mk(CHUNK, &d, 0, 5), &d, 5); reach!(); }
    fn copy_static [20] { each(3, |i| { copy(ByteData::from_static(b"0123456789abcdefg"), b"0123456789abcdefg", [0, 1, 16, 17][i]); reach!(); }); }
    fn copy_shared [20] { let d: [u8; 5] = any_bytes(); each(3, |i| { copy(SharedBytes::from_slice(&d), &d, [0, 1, 4, 5][i]); reach!(); }); }
    fn copy_shared_val [20] { let d: [u8; 6] = any_bytes(); copy(mk(SHARED_SL, &d, 1, 6), &d[1..], 2); reach!(); }
    fn th_copy_shared_val_all [20] { let d: [u8; 6] = any_bytes(); copy(mk(SHARED_SL, &d, 1, 6), &d[1..], 5); reach!(); }
    fn copy_ext [20] { let d: [u8; 17] = any_bytes(); copy(mk(EXT, &d, 0, 17), &d, 2); reach!(); }
    fn th_copy_ext_all [20] { let d: [u8; 17] = any_bytes(); copy(mk(EXT, &d, 0, 17), &d, 17); reach!(); }
    fn copy_queue_part [14] { paths(b"bbb", &[2], |q, e, n| copy(q, e, n)); }
    fn copy_queue_chunk [14] { paths(b"bbb", &[1], |q, e, n| copy(q, e, n)); }
    fn copy_queue_over [14] { paths(b"bbb", &[3], |q, e, n| copy(q, e, n)); }
    fn copy_queue_cut [14] { paths(b"bbbbb", &[5], |q, e, n| copy(q, e, n)); }
    fn copy_queue_all [14] { paths(b"bbb", &[4], |q, e, n| copy(q, e, n)); }
    fn copy_queue_first [14] { paths(b"fbb", &[0], |q, e, n| copy(q, e, n)); }
    /// typed reads
    fn typed_borrowed [12] { let d: [u8; 9] = any_bytes(); typed(mk(BORROWED, &d, 0, 9), &d); reach!(); }
    fn typed_chunk [12] { let d: [u8; 9] = any_bytes(); typed(mk(CHUNK, &d, 0, 9), &d); reach!(); }
    fn typed_shared [12] { let d: [u8; 9] = any_bytes(); typed(SharedBytes::from_slice(&d), &d); reach!(); }
    fn typed_queue [14] { paths(b"bbbbb", &[0], |q, e, _| typed(q, e)); }
    /// chunks_vectored
    fn vec_queue [14] {
        paths(b"bbbbb", &[0, 1, 3, 5, 6], |q, e, n| {
            let mut io = [std::io::IoSlice::new(&[]); 6];
            let r = q.chunks_vectored(&mut io[..n]);
            chk!(r <= n && (r == 0) == (n == 0), "number of pieces");
            let mut at = 0;
            let mut i = 0;
            while i < r {
                let l = io[i].len();
                chk!(l > 0 && at + l <= e.len() && same_all(&io[i], &e[at..at + l]), "pieces");
                at += l;
                i += 1;
            }
            chk!(r == n || at == e.len(), "all pieces there is room for");
            is_flat(&q, e);
        });
    }
    fn vec_data [14] {
        let d: [u8; 5] = any_bytes();
        let v = mk(CHUNK, &d, 0, 5);
        let mut io = [std::io::IoSlice::new(&[]); 2];
        chk!(v.chunks_vectored(&mut io) == 1 && same_all(&io[0], &d), "pieces");
        reach!();
    }
    /// a queue becomes a Bytes
    fn queue_one [14] { paths(b"b", &[0], |q, e, _| bis(&Bytes::from(q), e)); }
    fn queue_many [14] { paths(b"bbbbb", &[0], |q, e, _| bis(&Bytes::from(q), e)); }
    fn queue_wrap [14] { paths(b"bbPfb", &[0], |q, e, _| bis(&Bytes::from(q), e)); }
    fn th_queue_shared [20] { let d: [u8; 6] = any_bytes(); let mut q = ByteQueue::new(); q.push_back(mk(SHARED, &d, 0, 3)); q.push_back(mk(CHUNK, &d, 3, 6)); let b = Bytes::from(q); bis(&b, &d); reach!(); }
    /// appending through BufMut, with and without room
    fn put_slice [12] { puts(0, 1); }
    fn put_buf [12] { puts(2, 3); }
    fn put_typed [12] { puts(4, 5); }
    fn put_raw [12] { puts(6, 6); }
    fn put_queue [14] {
        paths(b"bbb", &[0], |q, e, _| {
            let mut b = SharedBytesBuilder::new();
            b.put(q);
            built(&b, &[], e);
        });
    }
    /// steps beyond the end are refused
    fn rej_advance_data [24] { let d: [u8; 5] = any_bytes(); let n = any_usize(); assume(n > 5); let mut v = mk(BORROWED, &d, 0, 5); refused!(v.advance(n), "advance beyond the end"); }
    fn rej_advance_chunk [24] { let d: [u8; 5] = any_bytes(); let n = any_usize(); assume(n > 5); let mut v = mk(CHUNK, &d, 0, 5); refused!(v.advance(n), "advance beyond the end"); }
    fn rej_advance_shared [24] { let d: [u8; 5] = any_bytes(); let n = any_usize(); assume(n > 5); let mut v = SharedBytes::from_slice(&d); refused!(v.advance(n), "advance beyond the end"); }
    fn rej_advance_queue [24] { let d: [u8; 5] = any_bytes(); let n = any_usize(); assume(n > 5); let mut v = ByteQueue::with_item(mk(BORROWED, &d, 0, 5)); refused!(v.advance(n), "advance beyond the end"); }
    fn rej_copy_data [24] { let d: [u8; 5] = any_bytes(); let n = any_usize(); assume(n > 5); let mut v = mk(BORROWED, &d, 0, 5); refused!(v.copy_to_bytes(n), "copy beyond the end"); }
    fn rej_copy_shared [24] { let d: [u8; 5] = any_bytes(); let n = any_usize(); assume(n > 5); let mut v = SharedBytes::from_slice(&d); refused!(v.copy_to_bytes(n), "copy beyond the end"); }
    fn rej_copy_queue [24] { let d: [u8; 5] = any_bytes(); let n = any_usize(); assume(n > 5); let mut v = ByteQueue::with_item(mk(BORROWED, &d, 0, 5)); refused!(v.copy_to_bytes(n), "copy beyond the end"); }
    fn rej_put [24] { let n = any_usize(); let mut b = SharedBytesBuilder::new(); assume(n > b.remaining_mut()); refused!(b.put_bytes(1, n), "more than there is room for"); }
}
