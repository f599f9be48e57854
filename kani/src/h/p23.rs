//! C23: values built from an arbitrary stream of bytes.
use crate::q::FLAT;
use crate::sym::*;
use crate::util::*;
use arbitrary_1::{Arbitrary, Unstructured};
use bytedata::*;

/// One path for each `i` up to `max`.
fn each<F: FnMut(usize)>(max: usize, mut f: F) {
    let n = any_usize();
    let mut i = 0;
    while i <= max {
        if n == i {
            f(i);
            return;
        }
        i += 1;
    }
    assume(false);
}
/// A stream of `n` bytes, arbitrary but for the choice of a representation in front.
#[inline(always)]
fn stream(choice: u8, d: &mut [u8]) {
    if d.len() > 0 {
        d[0] = choice;
    }
}
fn byte(d: &[u8], rest: bool) -> arbitrary_1::Result<ByteData<'_>> {
    let mut u = Unstructured::new(d);
    if rest { ByteData::arbitrary_take_rest(u) } else { ByteData::arbitrary(&mut u) }
}
fn txt(d: &[u8], rest: bool) -> arbitrary_1::Result<StringData<'_>> {
    let mut u = Unstructured::new(d);
    if rest { StringData::arbitrary_take_rest(u) } else { StringData::arbitrary(&mut u) }
}
fn shr(d: &[u8], rest: bool) -> arbitrary_1::Result<SharedBytes> {
    let mut u = Unstructured::new(d);
    if rest { SharedBytes::arbitrary_take_rest(u) } else { SharedBytes::arbitrary(&mut u) }
}
fn bld(d: &[u8], rest: bool) -> arbitrary_1::Result<SharedBytesBuilder> {
    let mut u = Unstructured::new(d);
    if rest { SharedBytesBuilder::arbitrary_take_rest(u) } else { SharedBytesBuilder::arbitrary(&mut u) }
}
/// Equal, without a loop over more than `max` bytes.
fn agree(a: &[u8], b: &[u8], max: usize) -> bool {
    if a.len() != b.len() || a.len() > max {
        return false;
    }
    let mut i = 0;
    while i < max {
        if i < a.len() && a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
macro_rules! twice {
    ($f:ident, $d:expr, $rest:expr, $max:expr, $s:ident => $b:expr, $ok:expr) => {{
        let x = $f($d, $rest);
        let y = $f($d, $rest);
        chk!(x.is_ok() == y.is_ok(), "a value once and an error once from the same stream");
        if let (Ok(x), Ok(y)) = (&x, &y) {
            let a = { let $s = x; $b };
            let b = { let $s = y; $b };
            chk!(agree(a, b, $max), "different values from the same stream");
            chk!($ok(a), "malformed value");
        }
        reach!();
    }};
}
macro_rules! once {
    ($f:ident, $d:expr, $rest:expr, $s:ident => $b:expr, $ok:expr) => {{
        let x = $f($d, $rest);
        if let Ok(x) = &x {
            let a = { let $s = x; $b };
            chk!($ok(a), "malformed value");
        }
        reach!();
    }};
}
fn any(_: &[u8]) -> bool {
    true
}
/// Well-formed UTF-8 (Unicode 15, table 3-7) of at most 14 bytes, byte by byte.
fn utf8(b: &[u8]) -> bool {
    wellformed(b, 14)
}
fn utf8_4(b: &[u8]) -> bool {
    wellformed(b, 4)
}
fn wellformed(b: &[u8], max: usize) -> bool {
    // how many continuation bytes are to come, and what the next byte must lie between
    let (mut more, mut lo, mut hi) = (0, 0x80, 0xBF);
    let mut i = 0;
    while i < max {
        if i < b.len() {
            let c = b[i];
            if more > 0 {
                if c < lo || c > hi {
                    return false;
                }
                (more, lo, hi) = (more - 1, 0x80, 0xBF);
            } else {
                (more, lo, hi) = match c {
                    0..=0x7F => (0, 0x80, 0xBF),
                    0xC2..=0xDF => (1, 0x80, 0xBF),
                    0xE0 => (2, 0xA0, 0xBF),
                    0xED => (2, 0x80, 0x9F),
                    0xE1..=0xEF => (2, 0x80, 0xBF),
                    0xF0 => (3, 0x90, 0xBF),
                    0xF1..=0xF3 => (3, 0x80, 0xBF),
                    0xF4 => (3, 0x80, 0x8F),
                    _ => return false,
                };
            }
        }
        i += 1;
    }
    more == 0 && b.len() <= max
}

/// The same chunks in both, all of them well formed, and the length their sum.
macro_rules! queues {
    ($x:expr, $y:expr, $ok:expr) => {{
        let x = $x;
        let y = $y;
        chk!(x.is_ok() == y.is_ok(), "a value once and an error once from the same stream");
        if let (Ok(x), Ok(y)) = (&x, &y) {
            chk!(x.len() == y.len() && x.chunks().len() == y.chunks().len(), "different values from the same stream");
            let mut n = 0;
            let mut b = y.chunks();
            for a in x.chunks() {
                n += a.len();
                chk!($ok(a), "malformed value");
                chk!(b.next().is_some_and(|b| agree(a.as_ref(), b.as_ref(), 4)), "different values from the same stream");
            }
            chk!(n == x.len(), "length");
        }
        reach!();
    }};
}
/// All chunks well formed, and the length their sum.
macro_rules! queue_one {
    ($x:expr, $ok:expr) => {{
        let x = $x;
        if let Ok(x) = &x {
            let mut n = 0;
            for a in x.chunks() {
                n += a.len();
                chk!($ok(a), "malformed value");
            }
            chk!(n == x.len(), "length");
        }
        reach!();
    }};
}
/// Characters of each width, and a surrogate, as they stand in a stream.
const CHARS: [[u8; 3]; 5] = [[0x61, 0, 0], [0xE9, 0, 0], [0xAC, 0x20, 0], [0x00, 0xF6, 0x01], [0x10, 0xD8, 0]];
/// A choice, one character announced, and the end.
fn ch(choice: u8, i: usize) -> [u8; 7] {
    let c = CHARS[i];
    [choice, 1, c[0], c[1], c[2], 0, 0]
}

harnesses! {
    /// byte values, for each representation
    fn data_borrowed [20] { let mut d: [u8; 4] = any_bytes(); stream(0, &mut d); each(1, |r| twice!(byte, &d, r == 1, 4, s => s.as_slice(), any)); }
    fn data_chunk [20] { let mut d: [u8; 4] = any_bytes(); stream(1, &mut d); each(1, |r| twice!(byte, &d, r == 1, 4, s => s.as_slice(), any)); }
    fn data_shared [12] { let mut d: [u8; 4] = any_bytes(); stream(2, &mut d); each(2, |n| { d[3] = n as u8; once!(byte, &d, false, s => s.as_slice(), any); }); }
    fn data_shared_rest [12] { let mut d: [u8; 4] = any_bytes(); stream(2, &mut d); each(2, |n| { d[3] = n as u8; once!(byte, &d, true, s => s.as_slice(), any); }); }
    fn data_empty [20] { each(1, |r| twice!(byte, &[], r == 1, 4, s => s.as_slice(), any)); }
    fn data_one [20] { let d: [u8; 1] = any_bytes(); each(1, |r| twice!(byte, &d, r == 1, 4, s => s.as_slice(), any)); }
    /// shared buffers and builders
    fn shared [12] { let mut d: [u8; 4] = any_bytes(); each(3, |n| { d[3] = n as u8; once!(shr, &d, false, s => s.as_slice(), any); }); }
    fn shared_twice [12] { let mut d: [u8; 4] = any_bytes(); each(3, |n| { d[3] = n as u8; twice!(shr, &d, false, 4, s => s.as_slice(), any); }); }
    fn shared_few [12] { let d: [u8; 1] = any_bytes(); each(1, |n| { each(1, |r| twice!(shr, &d[..n], r == 1, 4, s => s.as_slice(), any)) }); }
    fn builder [12] { let mut d: [u8; 4] = any_bytes(); each(3, |n| { d[3] = n as u8; twice!(bld, &d, false, 4, s => s.as_slice(), any); }); }
    fn builder_rest [12] { let d: [u8; 3] = any_bytes(); once!(bld, &d, true, s => s.as_slice(), any); }
    fn builder_rest_twice [12] { let d: [u8; 3] = any_bytes(); twice!(bld, &d, true, 3, s => s.as_slice(), any); }
    /// texts
    fn text_borrowed [6] { let mut d: [u8; 3] = any_bytes(); stream(0, &mut d); each(1, |n| { d[2] = n as u8; once!(txt, &d, false, s => s.as_bytes(), utf8_4); }); }
    fn th_text_borrowed [6] { let mut d: [u8; 4] = any_bytes(); stream(0, &mut d); d[3] = 2; once!(txt, &d, false, s => s.as_bytes(), utf8_4); }
    fn text_borrowed_rest [6] { let mut d: [u8; 2] = any_bytes(); stream(0, &mut d); once!(txt, &d, true, s => s.as_bytes(), utf8_4); }
    fn th_text_borrowed_rest [6] { let mut d: [u8; 3] = any_bytes(); stream(0, &mut d); once!(txt, &d, true, s => s.as_bytes(), utf8_4); }
    /// (characters of each width, and one that would be a surrogate)
    fn text_chunk [16] { each(4, |i| { let d = ch(1, i); once!(txt, &d, false, s => s.as_bytes(), utf8); }); }
    fn text_chunk_rest [20] { each(1, |i| { let c = CHARS[[1, 3][i]]; let d = [1, c[0], c[1], c[2]]; once!(txt, &d, true, s => s.as_bytes(), utf8); }); }
    fn th_text_chunk_rest [20] { each(2, |i| { let c = CHARS[[0, 2, 4][i]]; let d = [1, c[0], c[1], c[2]]; once!(txt, &d, true, s => s.as_bytes(), utf8); }); }
    fn text_shared [6] { each(1, |i| { let d = ch(2, [0, 2][i]); once!(txt, &d, false, s => s.as_bytes(), utf8_4); }); }
    fn th_text_shared [6] { each(4, |i| { let d = ch(2, i); twice!(txt, &d, false, 4, s => s.as_bytes(), utf8_4); }); }
    fn text_shared_rest [6] { each(1, |i| { let c = CHARS[[0, 2][i]]; let d = [2, c[0], c[1], c[2]]; once!(txt, &d, true, s => s.as_bytes(), utf8_4); }); }
    fn th_text_shared_rest [6] { each(4, |i| { let c = CHARS[i]; let d = [2, c[0], c[1], c[2]]; once!(txt, &d, true, s => s.as_bytes(), utf8_4); }); }
    fn text_empty [12] { each(1, |r| once!(txt, &[], r == 1, s => s.as_bytes(), utf8)); }
    /// queues of two chunks, at the same or at different ends; one that ends early, and none
    fn queue [8] { let d = [0, any_u8(), 0, 1, any_u8(), 1, 1, 1, 2]; queue_one!(ByteQueue::arbitrary(&mut Unstructured::new(&d)), |c: &ByteData<'_>| c.as_slice().len() < 9); }
    fn queue_rest [8] { let d = [0, any_u8(), 1, 1, any_u8(), 0, 1, 1]; queue_one!(ByteQueue::arbitrary_take_rest(Unstructured::new(&d)), |c: &ByteData<'_>| c.as_slice().len() < 9); }
    fn queue_few [12] { let x: [u8; 2] = [0, any_u8()]; each(2, |n| { queues!(ByteQueue::arbitrary(&mut Unstructured::new(&x[..n])), ByteQueue::arbitrary_take_rest(Unstructured::new(&x[..n])), |c: &ByteData<'_>| c.as_slice().len() < 9); }); }
    fn squeue [8] { let d = [0, 0x61, 0, 0, 0x62, 1, 1, 1, 2]; queue_one!(StringQueue::arbitrary(&mut Unstructured::new(&d)), |c: &StringData<'_>| utf8_4(c.as_bytes())); }
    fn squeue_rest [8] { let d = [0, 0x61, 1, 0, 0x62, 0, 1, 1]; queue_one!(StringQueue::arbitrary_take_rest(Unstructured::new(&d)), |c: &StringData<'_>| utf8_4(c.as_bytes())); }
}
