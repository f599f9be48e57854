use crate::sym::*;
use crate::util::*;
use bytedata::*;

const N: usize = 18;

/// `sliced` of every range of every form; the value and the slice both hold what they should.
#[inline(always)]
fn sl(k: u8) {
    let d: [u8; N] = any_bytes();
    let hi = if k == CHUNK { 14 } else { 17 };
    let e = &d[1..hi];
    let v = mk(k, &d, 1, hi);
    let (r, a, b) = good(hi - 1);
    let t = v.sliced(r);
    chk!(t.len() == b - a && t.is_empty() == (a == b), "length of sliced");
    chk!(same(t.as_slice(), &e[a..b]), "bytes of sliced");
    chk!(v.len() == hi - 1 && same(v.as_slice(), e), "the sliced value is unchanged");
    reach!();
}
#[inline(always)]
fn into(k: u8) {
    let d: [u8; N] = any_bytes();
    let hi = if k == CHUNK { 14 } else { 17 };
    let v = mk(k, &d, 1, hi);
    let (r, a, b) = good(hi - 1);
    let t = v.into_sliced(r);
    chk!(t.len() == b - a && t.is_empty() == (a == b), "length of into_sliced");
    chk!(same(t.as_slice(), &d[1 + a..1 + b]), "bytes of into_sliced");
    reach!();
}
#[inline(always)]
fn make(k: u8) {
    let d: [u8; N] = any_bytes();
    let hi = if k == CHUNK { 14 } else { 17 };
    let mut v = mk(k, &d, 1, hi);
    let (r, a, b) = good(hi - 1);
    v.make_sliced(r);
    chk!(v.len() == b - a && v.is_empty() == (a == b), "length after make_sliced");
    chk!(same(v.as_slice(), &d[1 + a..1 + b]), "bytes after make_sliced");
    reach!();
}
#[inline(always)]
fn shr(k: u8) {
    let d: [u8; N] = any_bytes();
    let hi = if k == CHUNK { 14 } else { 17 };
    let v = mk(k, &d, 1, hi);
    let (r, a, b) = good(hi - 1);
    let t = v.into_shared_range(r);
    chk!(t.len() == b - a && t.is_empty() == (a == b), "length and emptiness of into_shared_range");
    chk!(same(t.as_slice(), &d[1 + a..1 + b]), "bytes of into_shared_range");
    reach!();
}
/// The std range types, `a..b`, `a..`, `..b`, `a..=b`, `..=b`, `..`, each give the same cut.
#[inline(always)]
fn forms(f: u8) {
    let d: [u8; N] = any_bytes();
    let v = ByteData::from_borrowed(&d);
    let (a, b) = any_range(N);
    let (t, x, y) = match f {
        0 => (v.sliced(a..b), a, b),
        1 => (v.sliced(a..), a, N),
        2 => (v.sliced(..b), 0, b),
        3 => { assume(b < N); (v.sliced(a..=b), a, b + 1) }
        4 => { assume(b < N); (v.sliced(..=b), 0, b + 1) }
        _ => (v.sliced(..), 0, N),
    };
    chk!(same(t.as_slice(), &d[x..y]), "range form");
    reach!();
}
/// A slice of a slice is the slice at the sum of the offsets, and all three values stay intact.
#[inline(always)]
fn twice(k: u8) {
    let d: [u8; N] = any_bytes();
    let v = mk(k, &d, 0, if k == CHUNK { 14 } else { N });
    let (a, b) = any_range(v.len());
    let t = v.sliced(a..b);
    let (x, y) = any_range(b - a);
    let u = t.sliced(x..y);
    chk!(same(u.as_slice(), &d[a + x..a + y]), "slice of a slice");
    chk!(same(t.as_slice(), &d[a..b]), "first slice unchanged");
    reach!();
}

harnesses! {
    /// borrowed value, every range form
    fn sliced_borrowed [20] { sl(BORROWED); }
    fn sliced_chunk [20] { sl(CHUNK); }
    fn sliced_shared [20] { sl(SHARED); }
    fn th_sliced_shared_sl [20] { sl(SHARED_SL); }
    fn sliced_ext [20] { sl(EXT); }
    fn into_borrowed [20] { into(BORROWED); }
    fn into_chunk [20] { into(CHUNK); }
    fn into_shared [20] { into(SHARED); }
    fn into_shared_sl [20] { into(SHARED_SL); }
    fn into_ext [20] { into(EXT); }
    fn th_into_ext_sl [20] { into(EXT_SL); }
    fn make_borrowed [20] { make(BORROWED); }
    fn make_chunk [20] { make(CHUNK); }
    fn make_shared [20] { make(SHARED); }
    fn make_ext [20] { make(EXT); }
    fn shr_borrowed [20] { shr(BORROWED); }
    fn shr_chunk [20] { shr(CHUNK); }
    fn shr_shared [20] { shr(SHARED); }
    fn shr_ext [20] { shr(EXT); }
    fn form_range [20] { forms(0); }
    fn form_from [20] { forms(1); }
    fn form_to [20] { forms(2); }
    fn form_incl [20] { forms(3); }
    fn form_to_incl [20] { forms(4); }
    fn form_full [20] { forms(5); }
    fn twice_borrowed [20] { twice(BORROWED); }
    fn twice_chunk [20] { twice(CHUNK); }
    fn th_twice_shared [20] { twice(SHARED); }
    fn th_twice_ext [20] { twice(EXT); }

    fn sb_sliced_range [20] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 16);
        let (r, a, b) = good(16);
        let t = s.sliced_range(r);
        chk!(t.len() == b - a && t.is_empty() == (a == b), "length");
        chk!(same(&t, &d[1 + a..1 + b]), "bytes of sliced_range");
        chk!(same(&s, &d[1..17]), "the sliced buffer is unchanged");
        let (x, y) = any_range(b - a);
        let u = t.into_sliced_range(x..y);
        chk!(same(&u, &d[1 + a + x..1 + a + y]), "slice of a slice");
        chk!(same(&s, &d[1..17]), "the sliced buffer is unchanged");
        reach!();
    }
    fn sb_into_range [20] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 16);
        let (r, a, b) = good(16);
        let t = s.into_sliced_range(r);
        chk!(t.len() == b - a && same(&t, &d[1 + a..1 + b]), "into_sliced_range");
        reach!();
    }
    fn sb_make_range [20] {
        let d: [u8; N] = any_bytes();
        let mut s = SharedBytes::from_slice(&d).into_sliced(1, 16);
        let c = s.clone();
        let (r, a, b) = good(16);
        s.make_sliced_range(r);
        chk!(s.len() == b - a && same(&s, &d[1 + a..1 + b]), "make_sliced_range");
        chk!(same(&c, &d[1..17]), "a clone is unchanged");
        reach!();
    }
    fn sb_sliced [20] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 16);
        let (a, b) = any_range(16);
        let t = s.sliced(a, b - a);
        chk!(same(&t, &d[1 + a..1 + b]), "sliced(offset, len)");
        chk!(same(&s, &d[1..17]), "the sliced buffer is unchanged");
        core::mem::drop(s);
        chk!(same(&t, &d[1 + a..1 + b]), "the slice outlives the buffer");
        reach!();
    }
    fn sb_into_sliced [20] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 16);
        let (a, b) = any_range(16);
        let t = s.into_sliced(a, b - a);
        chk!(same(&t, &d[1 + a..1 + b]), "into_sliced(offset, len)");
        reach!();
    }
    fn sb_make_sliced [20] {
        let d: [u8; N] = any_bytes();
        let mut s = SharedBytes::from_slice(&d).into_sliced(1, 16);
        let (a, b) = any_range(16);
        s.make_sliced(a, b - a);
        chk!(same(&s, &d[1 + a..1 + b]), "make_sliced(offset, len)");
        reach!();
    }
    fn sb_index [20] {
        let d: [u8; N] = any_bytes();
        let s = SharedBytes::from_slice(&d).into_sliced(1, 16);
        let (a, b) = any_range(16);
        chk!(same(&s[a..b], &d[1 + a..1 + b]), "index a..b");
        chk!(same(&s[a..], &d[1 + a..17]), "index a..");
        chk!(same(&s[..b], &d[1..1 + b]), "index ..b");
        if b < 16 {
            chk!(s[b] == d[1 + b], "index b");
        }
        reach!();
    }
    fn chunk_sliced [16] {
        let d: [u8; 14] = any_bytes();
        let n = any_in(0, 14);
        let s = ByteChunk::from_slice(&d[..n]);
        let (r, a, b) = good(n);
        let t = s.sliced(r);
        chk!(t.len() == b - a && same(t.as_slice(), &d[a..b]), "ByteChunk::sliced");
        chk!(same(s.as_slice(), &d[..n]), "unchanged");
        reach!();
    }
    fn chunk_into_sliced [16] {
        let d: [u8; 14] = any_bytes();
        let n = any_in(0, 14);
        let s = ByteChunk::from_slice(&d[..n]);
        let (r, a, b) = good(n);
        let t = s.into_sliced(r);
        chk!(t.len() == b - a && same(t.as_slice(), &d[a..b]), "ByteChunk::into_sliced");
        reach!();
    }
    fn chunk_make_sliced [16] {
        let d: [u8; 14] = any_bytes();
        let n = any_in(0, 14);
        let mut s = ByteChunk::from_slice(&d[..n]);
        let (r, a, b) = good(n);
        s.make_sliced(r);
        chk!(s.len() == b - a && same(s.as_slice(), &d[a..b]), "ByteChunk::make_sliced");
        reach!();
    }
}
