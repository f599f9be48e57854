use crate::sym::*;
use crate::util::*;
use bytedata::*;
use core::ops::Bound;

const N: usize = 18;

#[inline(always)]
fn sl(k: u8) {
    let d: [u8; N] = any_bytes();
    let hi = if k == CHUNK { 14 } else { 17 };
    let v = mk(k, &d, 1, hi);
    let r = bad(hi - 1);
    refused!(v.sliced(r), "ByteData::sliced");
}
#[inline(always)]
fn into(k: u8) {
    let d: [u8; N] = any_bytes();
    let hi = if k == CHUNK { 14 } else { 17 };
    let v = mk(k, &d, 1, hi);
    let r = bad(hi - 1);
    refused!(v.into_sliced(r), "ByteData::into_sliced");
}
#[inline(always)]
fn make(k: u8) {
    let d: [u8; N] = any_bytes();
    let hi = if k == CHUNK { 14 } else { 17 };
    let mut v = mk(k, &d, 1, hi);
    let r = bad(hi - 1);
    refused!({ v.make_sliced(r); v.len() }, "ByteData::make_sliced");
}
#[inline(always)]
fn shr(k: u8) {
    let d: [u8; N] = any_bytes();
    let hi = if k == CHUNK { 14 } else { 17 };
    let v = mk(k, &d, 1, hi);
    let r = bad(hi - 1);
    refused!(v.into_shared_range(r), "ByteData::into_shared_range");
}
#[inline(always)]
fn take(k: u8) {
    let d: [u8; N] = any_bytes();
    let hi = if k == CHUNK { 14 } else { 17 };
    let mut v = mk(k, &d, 1, hi);
    let p = any_usize();
    assume(p > hi - 1);
    refused!(v.take_bytes(p), "ByteData::take_bytes");
}

fn pair(len: usize) -> (usize, usize) {
    let a = any_usize();
    let b = any_usize();
    assume(a as u128 + b as u128 > len as u128);
    (a, b)
}

fn queue(d: &[u8; 6]) -> ByteQueue<'_> {
    let mut q = ByteQueue::new();
    q.push_back(&d[0..2]);
    q.push_back(&d[2..5]);
    q
}

harnesses! {
    fn rej_sliced_borrowed [22] { sl(BORROWED); }
    fn rej_sliced_chunk [22] { sl(CHUNK); }
    fn rej_sliced_shared [22] { sl(SHARED); }
    fn rej_sliced_shared_sl [22] { sl(SHARED_SL); }
    fn rej_sliced_ext [22] { sl(EXT); }
    fn rej_into_borrowed [22] { into(BORROWED); }
    fn rej_into_chunk [22] { into(CHUNK); }
    fn rej_into_shared [22] { into(SHARED); }
    fn rej_into_ext [22] { into(EXT); }
    fn rej_make_borrowed [22] { make(BORROWED); }
    fn rej_make_chunk [22] { make(CHUNK); }
    fn rej_make_shared [22] { make(SHARED); }
    fn rej_make_ext [22] { make(EXT); }
    fn rej_shr_borrowed [22] { shr(BORROWED); }
    fn rej_shr_chunk [22] { shr(CHUNK); }
    fn rej_shr_shared [22] { shr(SHARED); }
    fn rej_shr_ext [22] { shr(EXT); }
    fn rej_take_borrowed [22] { take(BORROWED); }
    fn rej_take_shared [22] { take(SHARED); }
    fn rej_take_chunk [22] { take(CHUNK); }
    fn rej_take_ext [22] { take(EXT); }

    fn rej_sb_sliced [22] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 15);
        let (o, l) = pair(15);
        refused!(s.sliced(o, l), "SharedBytes::sliced");
    }
    fn rej_sb_into_sliced [22] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 15);
        let (o, l) = pair(15);
        refused!(s.into_sliced(o, l), "SharedBytes::into_sliced");
    }
    fn rej_sb_make_sliced [22] {
        let d: [u8; N] = any_bytes();
        let mut s = SharedBytes::from_slice(&d).into_sliced(1, 15);
        let (o, l) = pair(15);
        refused!({ s.make_sliced(o, l); s.len() }, "SharedBytes::make_sliced");
    }
    fn rej_sb_sliced_range [22] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 15);
        let r = bad(15);
        refused!(s.sliced_range(r), "SharedBytes::sliced_range");
    }
    fn rej_sb_into_sliced_range [22] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 15);
        let r = bad(15);
        refused!(s.into_sliced_range(r), "SharedBytes::into_sliced_range");
    }
    fn rej_sb_make_sliced_range [22] {
        let d: [u8; N] = any_bytes();
        let mut s = SharedBytes::from_slice(&d).into_sliced(1, 15);
        let r = bad(15);
        refused!({ s.make_sliced_range(r); s.len() }, "SharedBytes::make_sliced_range");
    }
    fn rej_sb_index [22] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 15);
        let i = any_usize();
        assume(i >= 15);
        refused!(s[i], "SharedBytes index");
    }
    fn rej_sb_index_range [22] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 15);
        let (a, b) = (any_usize(), any_usize());
        assume(a > b || b > 15);
        refused!(s[a..b].len(), "SharedBytes index range");
    }
    fn rej_sb_index_from [22] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 15);
        let a = any_usize();
        assume(a > 15);
        refused!(s[a..].len(), "SharedBytes index from");
    }
    fn rej_sb_index_to [22] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 15);
        let a = any_usize();
        assume(a > 15);
        refused!(s[..a].len(), "SharedBytes index to");
    }
    fn rej_bd_index [22] {
        let d: [u8; N] = any_bytes();
        let s = ByteData::from_borrowed(&d);
        let a = any_usize();
        assume(a >= N);
        refused!(s[a], "ByteData index");
    }
    fn rej_chunk_sliced [22] {
        let d: [u8; 14] = any_bytes();
        let n = any_in(0, 14);
        let s = ByteChunk::from_slice(&d[..n]);
        let r = bad(n);
        refused!(s.sliced(r), "ByteChunk::sliced");
    }
    fn rej_chunk_into_sliced [22] {
        let d: [u8; 14] = any_bytes();
        let n = any_in(0, 14);
        let s = ByteChunk::from_slice(&d[..n]);
        let r = bad(n);
        refused!(s.into_sliced(r), "ByteChunk::into_sliced");
    }
    fn rej_chunk_make_sliced [22] {
        let d: [u8; 14] = any_bytes();
        let n = any_in(0, 14);
        let mut s = ByteChunk::from_slice(&d[..n]);
        let r = bad(n);
        refused!({ s.make_sliced(r); s.len() }, "ByteChunk::make_sliced");
    }
    fn rej_chunk_too_long [22] {
        let d: [u8; 20] = any_bytes();
        let n = any_in(15, 20);
        refused!(ByteChunk::from_slice(&d[..n]), "ByteChunk::from_slice of more than 14 bytes");
    }
    fn rej_bd_chunk_too_long [22] {
        let d: [u8; 20] = any_bytes();
        let n = any_in(15, 20);
        refused!(ByteData::from_chunk_slice(&d[..n]), "ByteData::from_chunk_slice of more than 14 bytes");
    }
    fn rej_str_sliced [22] {
        let v = StringData::from_static("abcdefghijklmnopqrst");
        let r = bad(20);
        refused!(v.sliced(r), "StringData::sliced");
    }
    fn rej_str_into_sliced [22] {
        let v = StringData::from_static("abcdefghijklmnopqrst");
        let r = bad(20);
        refused!(v.into_sliced(r), "StringData::into_sliced");
    }
    fn rej_str_make_sliced [22] {
        let mut v = StringData::from_static("abcdefghijklmnopqrst");
        let r = bad(20);
        refused!({ v.make_sliced(r); v.len() }, "StringData::make_sliced");
    }
    fn rej_str_shr [22] {
        let v = StringData::from_static("abcdefghijklmnopqrst");
        let r = bad(20);
        refused!(v.into_shared_range(r), "StringData::into_shared_range");
    }
    fn rej_q_slice [10] {
        let d: [u8; 6] = any_bytes();
        let q = queue(&d);
        let r = bad(5);
        refused!(q.slice(r), "ByteQueue::slice");
    }
    fn rej_q_drain [8] {
        let d: [u8; 6] = any_bytes();
        let mut q = ByteQueue::with_item(ByteData::from_borrowed(&d));
        let r = bad(6);
        refused!(core::mem::forget(q.drain(r)), "ByteQueue::drain");
    }
    fn rej_q_split_off [10] {
        let d: [u8; 6] = any_bytes();
        let mut q = queue(&d);
        let p = any_usize();
        assume(p > 5);
        refused!(q.split_off(p), "ByteQueue::split_off");
    }
    fn rej_q_replace [8] {
        let mut q = core::mem::ManuallyDrop::new(ByteQueue::new());
        let r = bad(0);
        refused!(q.replace_range(r, ByteData::from_byte(1)), "ByteQueue::replace_range");
    }
    fn rej_q_consume [8] {
        let d: [u8; 6] = any_bytes();
        let mut q = core::mem::ManuallyDrop::new(ByteQueue::with_item(ByteData::from_borrowed(&d)));
        let n = any_usize();
        assume(n > 6);
        refused!(q.consume(n), "ByteQueue::consume");
    }
    fn rej_sq_slice [8] {
        let mut q = StringQueue::with_item(StringData::from_static("abcde"));
        let r = bad(5);
        refused!(core::mem::forget(q.slice(r)), "StringQueue::slice");
    }
    fn rej_sq_drain [8] {
        let mut q = StringQueue::with_item(StringData::from_static("abcde"));
        let r = bad(5);
        refused!(core::mem::forget(q.drain(r)), "StringQueue::drain");
    }
    fn rej_sq_split_off [10] {
        let mut q = StringQueue::new();
        q.push_back("ab");
        q.push_back("cde");
        let p = any_usize();
        assume(p > 5);
        refused!(q.split_off(p), "StringQueue::split_off");
    }
}
