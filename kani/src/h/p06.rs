use crate::sym::*;
use crate::util::*;
use bytedata::*;

/// Another handle to the same block, and what it must hold.
#[inline(always)]
fn other<'x>(s: &SharedBytes, w: &'x [u8], k: usize) -> (SharedBytes, &'x [u8]) {
    let n = w.len();
    match k {
        0 => (s.clone(), w),
        1 => (s.sliced(1, n - 1), &w[1..]),
        2 => (s.sliced(0, 2), &w[..2]),
        3 => (s.sliced_range(n - 1..), &w[n - 1..]),
        4 => (s.clone().into_sliced(2, 2), &w[2..4]),
        5 => {
            let mut x = s.clone();
            x.make_sliced_range(..n - 2);
            (x, &w[..n - 2])
        }
        _ => {
            let x = s.clone();
            let y = x.sliced(1, 3);
            (y, &w[1..4])
        }
    }
}
const WAYS: usize = 7;

/// Writes into what a handle was turned into, a builder that holds `w`.
#[inline(always)]
fn write(mut b: SharedBytesBuilder, w: &[u8], e: &[u8; 8], k: usize) -> SharedBytes {
    let n = w.len();
    chk!(same_all(&b, w), "exactly the bytes of the value");
    match k {
        0 => {
            let s = b.as_slice_mut();
            let mut i = 0;
            while i < n {
                s[i] = e[i];
                i += 1;
            }
            let t = b.build();
            chk!(same_all(&t, &e[..n]), "written");
            t
        }
        1 => {
            b.truncate(1);
            b.extend_from_slice(&e[..2]);
            let t = b.build();
            chk!(t.len() == 3 && t[0] == w[0] && t[1] == e[0] && t[2] == e[1], "written");
            t
        }
        2 => {
            b.clear();
            b.extend_from_slice(e);
            let t = b.build();
            chk!(same_all(&t, e), "written");
            t
        }
        3 => {
            let c = b.apply_unfilled(|x| {
                let mut i = 0;
                while i < x.len() && i < 4 {
                    x[i].write(e[i]);
                    i += 1;
                }
                (i, i)
            });
            let t = b.build();
            chk!(t.len() == n + c && same_all(&t[..n], w) && same_all(&t[n..], &e[..c]), "written");
            t
        }
        4 => {
            // within the room behind a slice, then beyond the block
            b.extend_from_slice(&e[..1]);
            b.extend_from_slice(&e[..7]);
            let t = b.build();
            chk!(t.len() == n + 8 && same_all(&t[..n], w) && t[n] == e[0] && same_all(&t[n + 1..], &e[..7]), "written");
            t
        }
        _ => {
            b.reserve(20);
            b[0] = e[0];
            let mut b = SharedBytesBuilder::from(b.build());
            b.extend_from_slice(&e[..3]);
            let t = b.build();
            chk!(t.len() == n + 3 && t[0] == e[0] && same_all(&t[1..n], &w[1..]) && same_all(&t[n..], &e[..3]), "written");
            t
        }
    }
}
/// A block with another handle made in way `o`; the one or the other is written to in way `k`.
#[inline(always)]
fn isolated(s: SharedBytes, d: &[u8], e: &[u8; 8], o: usize, k: usize, swap: bool) {
    chk!(s.is_unique(), "the only handle");
    let (x, w) = other(&s, d, o);
    chk!(!s.is_unique() && !x.is_unique(), "two handles");
    if swap {
        let t = write(x.into(), w, e, k);
        chk!(t.is_unique() && s.is_unique(), "apart");
        chk!(same_all(&s, d), "the other handle reads its bytes");
        drop(s);
        drop(t);
    } else {
        let t = write(s.into(), d, e, k);
        chk!(t.is_unique() && x.is_unique(), "apart");
        chk!(same_all(&x, w), "the other handle reads its bytes");
        drop(t);
        chk!(same_all(&x, w), "the other handle reads its bytes");
    }
}
/// A block whose other handle is gone: written to in place.
#[inline(always)]
fn alone(s: SharedBytes, d: &[u8], e: &[u8; 8], o: usize, k: usize, swap: bool) {
    let (x, w) = other(&s, d, o);
    let start = s.as_slice().as_ptr() as usize;
    if swap {
        drop(s);
        chk!(x.is_unique(), "the only handle left");
        let b = SharedBytesBuilder::from(x);
        chk!(b.as_slice().as_ptr() as usize == start, "the storage is reused");
        write(b, w, e, k);
    } else {
        drop(x);
        chk!(s.is_unique(), "the only handle left");
        let b = SharedBytesBuilder::from(s);
        chk!(b.as_slice().as_ptr() as usize == start, "the storage is reused");
        write(b, d, e, k);
    }
}
#[inline(always)]
fn all(align: usize, k: usize, f: fn(SharedBytes, &[u8], &[u8; 8], usize, usize, bool), ways: usize) {
    let d: [u8; 6] = any_bytes();
    let e: [u8; 8] = any_bytes();
    let p = any_in(0, 2 * ways - 1);
    let s = SharedBytes::from_slice_aligned(&d, align);
    reach!();
    let mut i = 0;
    while i < 2 * ways {
        if p == i {
            f(s, &d, &e, i >> 1, k, i & 1 == 1);
            return;
        }
        i += 1;
    }
}

/// A value of representation `k` and a sibling; the one or the other is turned into a vector and written to.
#[inline(always)]
fn vector(k: u8, sib: usize, swap: bool) {
    let d: [u8; 19] = any_bytes();
    let e = any_u8();
    let v = mk(k, &d, 1, 18);
    let w = &d[1..18];
    let (x, wx) = match sib {
        0 => (v.clone(), w),
        1 => (v.sliced(1..), &w[1..]),
        2 => (v.sliced(..16), &w[..16]),
        _ => (v.sliced(2..5), &w[2..5]),
    };
    reach!();
    let (a, wa, b, wb) = if swap { (x, wx, v, w) } else { (v, w, x, wx) };
    let mut a: Vec<u8> = a.into();
    chk!(same_all(&a, wa), "exactly the bytes of the value");
    let mut i = 0;
    while i < a.len() {
        a[i] = e;
        i += 1;
    }
    a.truncate(1);
    a.push(e);
    chk!(holds_all(&b, wb), "the other handle reads its bytes");
    let mut b: Vec<u8> = b.into();
    chk!(same_all(&b, wb), "exactly the bytes of the value");
    b[0] = e;
    b.clear();
    b.push(e);
    chk!(a.len() == 2 && a[0] == e && a[1] == e && b[0] == e, "the vectors are apart");
}

harnesses! {
    /// another handle, made in any way; one of the two overwritten
    fn write_in_place [14] { all(4, 0, isolated, WAYS); }
    /// another handle, made in any way; one of the two truncated and appended to
    fn write_truncate [14] { all(4, 1, isolated, WAYS); }
    /// another handle, made in any way; one of the two cleared and refilled
    fn write_clear [14] { all(4, 2, isolated, WAYS); }
    /// another handle, made in any way; the spare room of one of the two filled
    fn write_spare [14] { all(4, 3, isolated, WAYS); }
    /// another handle, made in any way; one of the two appended to
    fn write_append [14] { all(4, 4, isolated, WAYS); }
    /// another handle, made in any way; one of the two grown, built and appended to again
    fn write_again [14] { all(4, 5, isolated, WAYS); }
    /// the same with a block aligned to 64, appended to
    fn write_aligned [14] { all(64, 4, isolated, 3); }
    /// no other handle left; overwritten
    fn alone_in_place [14] { all(4, 0, alone, WAYS); }
    /// no other handle left; truncated and appended to
    fn alone_truncate [14] { all(4, 1, alone, WAYS); }
    /// no other handle left; the spare room filled
    fn alone_spare [14] { all(4, 3, alone, WAYS); }
    /// no other handle left; appended to
    fn alone_append [14] { all(16, 4, alone, WAYS); }
    /// no other handle left; grown, built and appended to again
    fn alone_again [14] { all(4, 5, alone, WAYS); }
    /// uniqueness through a history of up to four handles
    fn unique [14] {
        let d: [u8; 6] = any_bytes();
        let o = [any_bool(), any_bool(), any_bool()];
        let s = SharedBytes::from_slice(&d);
        reach!();
        chk!(s.is_unique(), "one");
        let x = s.clone();
        let y = x.sliced(2, 2);
        let z = y.clone();
        chk!(!s.is_unique() && !x.is_unique() && !y.is_unique() && !z.is_unique(), "four");
        let mut n = 4;
        if o[0] {
            drop(x);
            n -= 1;
        }
        if o[1] {
            drop(y);
            n -= 1;
        }
        if o[2] {
            drop(z);
            n -= 1;
        }
        chk!(s.is_unique() == (n == 1), "exactly when one handle is left");
    }
    /// empty values share nothing
    fn unique_empty [14] {
        let s = SharedBytes::empty();
        let t = SharedBytes::from_slice(&[]);
        let u = SharedBytes::from_slice(b"abc");
        let v = u.sliced(1, 0);
        reach!();
        chk!(s.is_unique() && t.is_unique() && u.is_unique() && v.is_unique(), "unique");
        let mut b = SharedBytesBuilder::from(v);
        b.extend_from_slice(b"xyz");
        chk!(same_all(&u, b"abc") && same_all(&b, b"xyz"), "apart");
    }
    /// text turned into a text builder while another handle lives
    fn th_text [22] {
        let mut x = SharedStrBuilder::with_capacity(18);
        x.push_str("abcdefghijklmnopqr");
        let s = x.build();
        let t = s.clone();
        let x = unsafe { StringData::from_bytedata_unchecked(s.into()) };
        let c = any_in(0, 25) as u8;
        let mut b = SharedStrBuilder::from(x);
        b.truncate(3);
        b.push_str(unsafe { core::str::from_utf8_unchecked(core::slice::from_ref(&(b'a' + c))) });
        reach!();
        chk!(b.len() == 4 && b.as_bytes()[3] == b'a' + c && same_all(&b.as_bytes()[..3], b"abc"), "written");
        chk!(same_all(&t, b"abcdefghijklmnopqr"), "the other handle reads its bytes");
    }
    /// shared storage and its clone: vectors
    fn vec_shared_clone [22] { vector(SHARED, 0, false); }
    /// shared storage and a slice of it: vectors
    fn th_vec_shared_slice [22] { vector(SHARED, 1, false); }
    /// part of shared storage and an inline slice of it: vectors
    fn vec_shared_part [22] { vector(SHARED_SL, 3, false); }
    /// external storage and its clone, which is kept: vectors
    fn vec_ext_clone [22] { vector(EXT, 0, false); }
    /// external storage and its clone, the clone first: vectors
    fn th_vec_ext_clone_first [22] { vector(EXT, 0, true); }
    /// external storage and a slice of it: vectors
    fn th_vec_ext_slice [22] { vector(EXT, 1, false); }
    /// external storage and a slice of it, the slice first: vectors
    fn vec_ext_slice_first [22] { vector(EXT, 2, true); }
    /// part of external storage and an inline slice of it: vectors
    fn vec_ext_part [22] { vector(EXT_SL, 3, false); }
    /// part of external storage and its clone: vectors
    fn th_vec_ext_part_clone [22] { vector(EXT_SL, 0, false); }
}
