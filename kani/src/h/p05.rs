use crate::sym::*;
use crate::util::*;
use bytedata::external::*;
use bytedata::*;
use core::sync::atomic::{AtomicU32, Ordering};

/// How often a payload was dropped; a harness starts with none.
static DROPS: AtomicU32 = AtomicU32::new(0);
fn drops() -> u32 {
    DROPS.load(Ordering::Relaxed)
}
macro_rules! payload {
    ($($(#[$a:meta])* $n:ident $l:literal;)*) => {$(
        $(#[$a])*
        struct $n([u8; $l]);
        impl Drop for $n {
            fn drop(&mut self) {
                DROPS.fetch_add(1, Ordering::Relaxed);
            }
        }
        impl ExternalBytes for $n {
            const OPS: ExternalOps<Self> = ExternalOps::new(|x| &x.0);
        }
    )*};
}
payload! {
    /// larger than the inline limit
    Big 20;
    /// as large as the inline limit
    Small 14;
    /// one more
    Edge 15;
    /// more strictly aligned than the bookkeeping in front of it
    #[repr(align(64))]
    Wide 20;
}
/// a payload without anything to drop
struct Plain([u8; 20]);
impl ExternalBytes for Plain {
    const OPS: ExternalOps<Self> = ExternalOps::new(|x| &x.0);
}
/// a payload that owns storage of its own
struct Owner(Box<[u8; 20]>);
impl ExternalBytes for Owner {
    const OPS: ExternalOps<Self> = ExternalOps::new(|x| &x.0[..]);
}
/// a payload of no size, whose bytes are elsewhere
struct Ghost;
static GHOST: [u8; 20] = *b"0123456789abcdefghij";
impl ExternalBytes for Ghost {
    const OPS: ExternalOps<Self> = ExternalOps::new(|_| &GHOST);
}

/// A handle to shared storage obtained from another in one step, and what it must hold.
#[inline(always)]
fn derive<'x>(s: &SharedBytes, w: &'x [u8], op: usize) -> (SharedBytes, &'x [u8]) {
    let n = w.len();
    match op {
        0 => (s.clone(), w),
        1 => (s.sliced(1, n - 2), &w[1..n - 1]),
        2 => (s.sliced_range(n - 1..), &w[n - 1..]),
        3 => (s.sliced(1, 0), &w[1..1]),
        4 => (s.clone().into_sliced(n - 1, 1), &w[n - 1..]),
        5 => (s.clone().into_sliced_range(..n - 1), &w[..n - 1]),
        6 => {
            let mut x = s.clone();
            x.make_sliced(0, 1);
            (x, &w[..1])
        }
        7 => {
            let mut x = s.clone();
            x.make_sliced_range(2..2);
            (x, &w[2..2])
        }
        _ => (SharedBytes::from(ByteData::from_shared(s.clone())), w),
    }
}
#[inline(always)]
fn is(s: &SharedBytes, w: &[u8]) {
    chk!(same_all(s.as_slice(), w), "a live handle reads its bytes");
}
/// Three handles to one block, made by `a` and `b`, dropped in every order.
fn three(s: SharedBytes, w: &[u8], a: usize, b: usize) {
    let o = any_in(0, 5);
    let (x, wx) = derive(&s, w, a);
    let (y, wy) = if wx.len() < 3 { derive(&s, w, b) } else { derive(&x, wx, b) };
    is(&s, w);
    is(&x, wx);
    is(&y, wy);
    let mut k = 0;
    while k < 6 {
        if o == k {
            match k {
                0 => {
                    drop(s);
                    is(&x, wx);
                    drop(x);
                    is(&y, wy);
                }
                1 => {
                    drop(s);
                    drop(y);
                    is(&x, wx);
                }
                2 => {
                    drop(x);
                    is(&s, w);
                    drop(s);
                    is(&y, wy);
                }
                3 => {
                    drop(x);
                    drop(y);
                    is(&s, w);
                }
                4 => {
                    drop(y);
                    is(&x, wx);
                    drop(s);
                    is(&x, wx);
                }
                _ => {
                    drop(y);
                    drop(x);
                    is(&s, w);
                }
            }
            return;
        }
        k += 1;
    }
}
#[inline(always)]
fn handles(align: usize, a: usize) {
    let d: [u8; 5] = any_bytes();
    let s = SharedBytes::from_slice_aligned(&d, align);
    let b = any_in(0, 7);
    reach!();
    let mut k = 0;
    while k < 8 {
        if b == k {
            three(s, &d, a, k);
            return;
        }
        k += 1;
    }
}
/// A handle that keeps no byte (or all) of its block still releases it; storage passes through a builder.
fn through(d: &[u8], k: usize) {
    let s = SharedBytes::from_slice(d);
    match k {
        0 => drop(s.into_sliced(2, 0)),
        1 => {
            let c = s.clone();
            let mut b = SharedBytesBuilder::from(s);
            b.extend_from_slice(&[1]);
            is(&c, d);
            let t = b.build();
            drop(c);
            chk!(t.len() == d.len() + 1 && same_all(&t[..d.len()], d), "built");
        }
        2 => {
            let b = SharedBytesBuilder::from(s.into_sliced(1, 2));
            chk!(same_all(&b, &d[1..3]), "kept");
            drop(b);
        }
        3 => {
            let mut b = SharedBytesBuilder::from(s.into_sliced(1, 2));
            b.clear();
            chk!(b.build().is_empty(), "empty");
        }
        4 => {
            let b = SharedBytesBuilder::from(s.into_sliced(1, 0));
            let t = b.build();
            chk!(t.is_empty(), "empty");
        }
        5 => {
            let b = SharedBytesBuilder::with_capacity(7);
            chk!(b.build().is_empty(), "empty");
        }
        6 => {
            let mut b = SharedBytesBuilder::with_capacity(3);
            b.extend_from_slice(&d[..3]);
            b.reserve(9);
            drop(b);
            drop(s);
        }
        _ => {
            let c = s.clone();
            let v: Vec<u8> = ByteData::from_shared(s).into();
            chk!(same_all(&v, d), "Vec");
            drop(v);
            is(&c, d);
        }
    }
}

/// One step on a value, and a sibling made before it; `o` says which is dropped first.
#[inline(always)]
fn pair(v: ByteData<'_>, w: &[u8], sib: usize, op: usize, o: bool) {
    let n = w.len();
    let (s, ws) = match sib {
        0 => (v.clone(), w),
        1 => (v.sliced(1..n - 1), &w[1..n - 1]),
        _ => (v.sliced(n - 3..), &w[n - 3..]),
    };
    if op >= 6 {
        match op {
            6 => {
                let x: Vec<u8> = v.into();
                chk!(same_all(&x, w) && holds_all(&s, ws), "Vec");
            }
            7 => {
                let x: SharedBytes = v.into();
                if o {
                    drop(s);
                    chk!(same_all(x.as_slice(), w), "shared");
                } else {
                    drop(x);
                    chk!(holds_all(&s, ws), "sibling");
                }
            }
            _ => {
                let (x, y) = v.split_at(2);
                if o {
                    drop(y);
                    drop(s);
                    chk!(holds_all(&x, &w[..2]), "front");
                } else {
                    drop(x);
                    drop(s);
                    chk!(holds_all(&y, &w[2..]), "rest");
                }
            }
        }
        return;
    }
    let (x, wx) = match op {
        0 => (v, w),
        1 => (v.into_shared(), w),
        2 => (v.into_sliced(1..n - 1), &w[1..n - 1]),
        3 => (v.into_sliced(..3), &w[..3]),
        4 => (v.into_shared_range(2..), &w[2..]),
        _ => {
            let mut v = v;
            v.make_sliced(n - 2..);
            (v, &w[n - 2..])
        }
    };
    chk!(holds_all(&x, wx) && holds_all(&s, ws), "both");
    if o {
        drop(x);
        chk!(holds_all(&s, ws), "sibling");
    } else {
        drop(s);
        chk!(holds_all(&x, wx), "value");
    }
}
/// Both orders for one operation on a value of representation `k` next to one sibling.
#[inline(always)]
fn pairs(k: u8, op: usize, sib: usize) {
    let d: [u8; 18] = any_bytes();
    let p = any_in(0, 1);
    let v = mk(k, &d, 1, 18);
    reach!();
    if p == 0 {
        pair(v, &d[1..], sib, op, false);
        return;
    }
    pair(v, &d[1..], sib, op, true);
}
/// A payload is dropped when its last handle goes, not earlier, and once.
#[inline(always)]
fn dropped<E: IntoExternalBytes>(e: E, w: &[u8], op: usize) {
    DROPS.store(0, Ordering::Relaxed);
    let n = w.len();
    let p = any_in(0, 1);
    let v = ByteData::from_external(e);
    chk!(holds_all(&v, w), "external");
    if n <= 14 {
        chk!(drops() == 1, "a payload that fits is copied and dropped");
        return;
    }
    chk!(drops() == 0, "alive");
    reach!();
    let s = match op {
        0 => v.clone(),
        1 => v.sliced(1..),
        2 => v.sliced(1..3),
        3 => v.clone().into_sliced(2..4),
        4 => v.clone().into_shared_range(..n),
        _ => v.clone().into_shared(),
    };
    // an operation of one inline sibling keeps no handle
    let holds = s.len() > 14;
    chk!(drops() == 0, "alive");
    if p == 0 {
        drop(v);
        chk!(drops() == !holds as u32, "the last handle");
        if op == 0 {
            chk!(holds_all(&s, w), "sibling");
        }
        drop(s);
        chk!(drops() == 1, "dropped once");
        return;
    }
    drop(s);
    chk!(drops() == 0, "alive");
    chk!(holds_all(&v, w), "value");
    let x: Vec<u8> = v.into();
    chk!(same_all(&x, w), "Vec");
    chk!(drops() == 1, "dropped once");
}

harnesses! {
    /// three handles to one block: derived by way 0, then by any way; dropped in every order
    fn handles_0 [8] { handles(4, 0); }
    /// three handles to one block: derived by way 1, then by any way; dropped in every order
    fn handles_1 [8] { handles(4, 1); }
    /// three handles to one block: derived by way 2, then by any way; dropped in every order
    fn handles_2 [8] { handles(4, 2); }
    /// three handles to one block: derived by way 3, then by any way; dropped in every order
    fn handles_3 [8] { handles(4, 3); }
    /// three handles to one block: derived by way 4, then by any way; dropped in every order
    fn handles_4 [8] { handles(4, 4); }
    /// three handles to one block: derived by way 5, then by any way; dropped in every order
    fn handles_5 [8] { handles(4, 5); }
    /// three handles to one block: derived by way 6, then by any way; dropped in every order
    fn handles_6 [8] { handles(4, 6); }
    /// three handles to one block: derived by way 7, then by any way; dropped in every order
    fn handles_7 [8] { handles(4, 7); }
    /// three handles to one block: derived by way 8, then by any way; dropped in every order
    fn th_handles_8 [8] { handles(4, 8); }
    /// three handles to a block aligned to 64
    fn handles_wide [8] { handles(64, 0); }
    /// a block passes through slices of no length, builders, vectors
    fn through_all [22] {
        let d: [u8; 5] = any_bytes();
        let p = any_in(0, 7);
        reach!();
        let mut k = 0;
        while k < 8 {
            if p == k {
                through(&d, k);
                return;
            }
            k += 1;
        }
    }
    /// BORROWED: move, next to a sibling (clone), dropped in both orders
    fn th_pairs_borrowed_move_clone [22] { pairs(BORROWED, 0, 0); }
    /// BORROWED: move, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_borrowed_move_inner_slice [22] { pairs(BORROWED, 0, 1); }
    /// BORROWED: move, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_borrowed_move_inline_slice [22] { pairs(BORROWED, 0, 2); }
    /// BORROWED: into_shared, next to a sibling (clone), dropped in both orders
    fn th_pairs_borrowed_into_shared_clone [22] { pairs(BORROWED, 1, 0); }
    /// BORROWED: into_shared, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_borrowed_into_shared_inner_slice [22] { pairs(BORROWED, 1, 1); }
    /// BORROWED: into_shared, next to a sibling (inline_slice), dropped in both orders
    fn pairs_borrowed_into_shared_inline_slice [22] { pairs(BORROWED, 1, 2); }
    /// BORROWED: into_sliced, next to a sibling (clone), dropped in both orders
    fn th_pairs_borrowed_into_sliced_clone [22] { pairs(BORROWED, 2, 0); }
    /// BORROWED: into_sliced, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_borrowed_into_sliced_inner_slice [22] { pairs(BORROWED, 2, 1); }
    /// BORROWED: into_sliced, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_borrowed_into_sliced_inline_slice [22] { pairs(BORROWED, 2, 2); }
    /// BORROWED: into_inline, next to a sibling (clone), dropped in both orders
    fn th_pairs_borrowed_into_inline_clone [22] { pairs(BORROWED, 3, 0); }
    /// BORROWED: into_inline, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_borrowed_into_inline_inner_slice [22] { pairs(BORROWED, 3, 1); }
    /// BORROWED: into_inline, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_borrowed_into_inline_inline_slice [22] { pairs(BORROWED, 3, 2); }
    /// BORROWED: into_shared_range, next to a sibling (clone), dropped in both orders
    fn th_pairs_borrowed_into_shared_range_clone [22] { pairs(BORROWED, 4, 0); }
    /// BORROWED: into_shared_range, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_borrowed_into_shared_range_inner_slice [22] { pairs(BORROWED, 4, 1); }
    /// BORROWED: into_shared_range, next to a sibling (inline_slice), dropped in both orders
    fn pairs_borrowed_into_shared_range_inline_slice [22] { pairs(BORROWED, 4, 2); }
    /// BORROWED: make_inline, next to a sibling (clone), dropped in both orders
    fn th_pairs_borrowed_make_inline_clone [22] { pairs(BORROWED, 5, 0); }
    /// BORROWED: make_inline, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_borrowed_make_inline_inner_slice [22] { pairs(BORROWED, 5, 1); }
    /// BORROWED: make_inline, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_borrowed_make_inline_inline_slice [22] { pairs(BORROWED, 5, 2); }
    /// BORROWED: vec, next to a sibling (clone), dropped in both orders
    fn th_pairs_borrowed_vec_clone [22] { pairs(BORROWED, 6, 0); }
    /// BORROWED: vec, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_borrowed_vec_inner_slice [22] { pairs(BORROWED, 6, 1); }
    /// BORROWED: vec, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_borrowed_vec_inline_slice [22] { pairs(BORROWED, 6, 2); }
    /// BORROWED: shared, next to a sibling (clone), dropped in both orders
    fn th_pairs_borrowed_shared_clone [22] { pairs(BORROWED, 7, 0); }
    /// BORROWED: shared, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_borrowed_shared_inner_slice [22] { pairs(BORROWED, 7, 1); }
    /// BORROWED: shared, next to a sibling (inline_slice), dropped in both orders
    fn pairs_borrowed_shared_inline_slice [22] { pairs(BORROWED, 7, 2); }
    /// BORROWED: split, next to a sibling (clone), dropped in both orders
    fn th_pairs_borrowed_split_clone [22] { pairs(BORROWED, 8, 0); }
    /// BORROWED: split, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_borrowed_split_inner_slice [22] { pairs(BORROWED, 8, 1); }
    /// BORROWED: split, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_borrowed_split_inline_slice [22] { pairs(BORROWED, 8, 2); }
    /// SHARED: move, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_move_clone [22] { pairs(SHARED, 0, 0); }
    /// SHARED: move, next to a sibling (inner_slice), dropped in both orders
    fn pairs_shared_move_inner_slice [22] { pairs(SHARED, 0, 1); }
    /// SHARED: move, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_move_inline_slice [22] { pairs(SHARED, 0, 2); }
    /// SHARED: into_shared, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_into_shared_clone [22] { pairs(SHARED, 1, 0); }
    /// SHARED: into_shared, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_into_shared_inner_slice [22] { pairs(SHARED, 1, 1); }
    /// SHARED: into_shared, next to a sibling (inline_slice), dropped in both orders
    fn pairs_shared_into_shared_inline_slice [22] { pairs(SHARED, 1, 2); }
    /// SHARED: into_sliced, next to a sibling (clone), dropped in both orders
    fn pairs_shared_into_sliced_clone [22] { pairs(SHARED, 2, 0); }
    /// SHARED: into_sliced, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_into_sliced_inner_slice [22] { pairs(SHARED, 2, 1); }
    /// SHARED: into_sliced, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_into_sliced_inline_slice [22] { pairs(SHARED, 2, 2); }
    /// SHARED: into_inline, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_into_inline_clone [22] { pairs(SHARED, 3, 0); }
    /// SHARED: into_inline, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_into_inline_inner_slice [22] { pairs(SHARED, 3, 1); }
    /// SHARED: into_inline, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_into_inline_inline_slice [22] { pairs(SHARED, 3, 2); }
    /// SHARED: into_shared_range, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_into_shared_range_clone [22] { pairs(SHARED, 4, 0); }
    /// SHARED: into_shared_range, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_into_shared_range_inner_slice [22] { pairs(SHARED, 4, 1); }
    /// SHARED: into_shared_range, next to a sibling (inline_slice), dropped in both orders
    fn pairs_shared_into_shared_range_inline_slice [22] { pairs(SHARED, 4, 2); }
    /// SHARED: make_inline, next to a sibling (clone), dropped in both orders
    fn pairs_shared_make_inline_clone [22] { pairs(SHARED, 5, 0); }
    /// SHARED: make_inline, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_make_inline_inner_slice [22] { pairs(SHARED, 5, 1); }
    /// SHARED: make_inline, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_make_inline_inline_slice [22] { pairs(SHARED, 5, 2); }
    /// SHARED: vec, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_vec_clone [22] { pairs(SHARED, 6, 0); }
    /// SHARED: vec, next to a sibling (inner_slice), dropped in both orders
    fn pairs_shared_vec_inner_slice [22] { pairs(SHARED, 6, 1); }
    /// SHARED: vec, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_vec_inline_slice [22] { pairs(SHARED, 6, 2); }
    /// SHARED: shared, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_shared_clone [22] { pairs(SHARED, 7, 0); }
    /// SHARED: shared, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_shared_inner_slice [22] { pairs(SHARED, 7, 1); }
    /// SHARED: shared, next to a sibling (inline_slice), dropped in both orders
    fn pairs_shared_shared_inline_slice [22] { pairs(SHARED, 7, 2); }
    /// SHARED: split, next to a sibling (clone), dropped in both orders
    fn pairs_shared_split_clone [22] { pairs(SHARED, 8, 0); }
    /// SHARED: split, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_split_inner_slice [22] { pairs(SHARED, 8, 1); }
    /// SHARED: split, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_split_inline_slice [22] { pairs(SHARED, 8, 2); }
    /// SHARED_SL: move, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_sl_move_clone [22] { pairs(SHARED_SL, 0, 0); }
    /// SHARED_SL: move, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_sl_move_inner_slice [22] { pairs(SHARED_SL, 0, 1); }
    /// SHARED_SL: move, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_sl_move_inline_slice [22] { pairs(SHARED_SL, 0, 2); }
    /// SHARED_SL: into_shared, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_sl_into_shared_clone [22] { pairs(SHARED_SL, 1, 0); }
    /// SHARED_SL: into_shared, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_sl_into_shared_inner_slice [22] { pairs(SHARED_SL, 1, 1); }
    /// SHARED_SL: into_shared, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_sl_into_shared_inline_slice [22] { pairs(SHARED_SL, 1, 2); }
    /// SHARED_SL: into_sliced, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_sl_into_sliced_clone [22] { pairs(SHARED_SL, 2, 0); }
    /// SHARED_SL: into_sliced, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_sl_into_sliced_inner_slice [22] { pairs(SHARED_SL, 2, 1); }
    /// SHARED_SL: into_sliced, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_sl_into_sliced_inline_slice [22] { pairs(SHARED_SL, 2, 2); }
    /// SHARED_SL: into_inline, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_sl_into_inline_clone [22] { pairs(SHARED_SL, 3, 0); }
    /// SHARED_SL: into_inline, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_sl_into_inline_inner_slice [22] { pairs(SHARED_SL, 3, 1); }
    /// SHARED_SL: into_inline, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_sl_into_inline_inline_slice [22] { pairs(SHARED_SL, 3, 2); }
    /// SHARED_SL: into_shared_range, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_sl_into_shared_range_clone [22] { pairs(SHARED_SL, 4, 0); }
    /// SHARED_SL: into_shared_range, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_sl_into_shared_range_inner_slice [22] { pairs(SHARED_SL, 4, 1); }
    /// SHARED_SL: into_shared_range, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_sl_into_shared_range_inline_slice [22] { pairs(SHARED_SL, 4, 2); }
    /// SHARED_SL: make_inline, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_sl_make_inline_clone [22] { pairs(SHARED_SL, 5, 0); }
    /// SHARED_SL: make_inline, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_sl_make_inline_inner_slice [22] { pairs(SHARED_SL, 5, 1); }
    /// SHARED_SL: make_inline, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_sl_make_inline_inline_slice [22] { pairs(SHARED_SL, 5, 2); }
    /// SHARED_SL: vec, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_sl_vec_clone [22] { pairs(SHARED_SL, 6, 0); }
    /// SHARED_SL: vec, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_sl_vec_inner_slice [22] { pairs(SHARED_SL, 6, 1); }
    /// SHARED_SL: vec, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_sl_vec_inline_slice [22] { pairs(SHARED_SL, 6, 2); }
    /// SHARED_SL: shared, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_sl_shared_clone [22] { pairs(SHARED_SL, 7, 0); }
    /// SHARED_SL: shared, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_sl_shared_inner_slice [22] { pairs(SHARED_SL, 7, 1); }
    /// SHARED_SL: shared, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_sl_shared_inline_slice [22] { pairs(SHARED_SL, 7, 2); }
    /// SHARED_SL: split, next to a sibling (clone), dropped in both orders
    fn th_pairs_shared_sl_split_clone [22] { pairs(SHARED_SL, 8, 0); }
    /// SHARED_SL: split, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_shared_sl_split_inner_slice [22] { pairs(SHARED_SL, 8, 1); }
    /// SHARED_SL: split, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_shared_sl_split_inline_slice [22] { pairs(SHARED_SL, 8, 2); }
    /// EXT: move, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_move_clone [22] { pairs(EXT, 0, 0); }
    /// EXT: move, next to a sibling (inner_slice), dropped in both orders
    fn pairs_ext_move_inner_slice [22] { pairs(EXT, 0, 1); }
    /// EXT: move, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_move_inline_slice [22] { pairs(EXT, 0, 2); }
    /// EXT: into_shared, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_into_shared_clone [22] { pairs(EXT, 1, 0); }
    /// EXT: into_shared, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_into_shared_inner_slice [22] { pairs(EXT, 1, 1); }
    /// EXT: into_shared, next to a sibling (inline_slice), dropped in both orders
    fn pairs_ext_into_shared_inline_slice [22] { pairs(EXT, 1, 2); }
    /// EXT: into_sliced, next to a sibling (clone), dropped in both orders
    fn pairs_ext_into_sliced_clone [22] { pairs(EXT, 2, 0); }
    /// EXT: into_sliced, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_into_sliced_inner_slice [22] { pairs(EXT, 2, 1); }
    /// EXT: into_sliced, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_into_sliced_inline_slice [22] { pairs(EXT, 2, 2); }
    /// EXT: into_inline, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_into_inline_clone [22] { pairs(EXT, 3, 0); }
    /// EXT: into_inline, next to a sibling (inner_slice), dropped in both orders
    fn pairs_ext_into_inline_inner_slice [22] { pairs(EXT, 3, 1); }
    /// EXT: into_inline, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_into_inline_inline_slice [22] { pairs(EXT, 3, 2); }
    /// EXT: into_shared_range, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_into_shared_range_clone [22] { pairs(EXT, 4, 0); }
    /// EXT: into_shared_range, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_into_shared_range_inner_slice [22] { pairs(EXT, 4, 1); }
    /// EXT: into_shared_range, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_into_shared_range_inline_slice [22] { pairs(EXT, 4, 2); }
    /// EXT: make_inline, next to a sibling (clone), dropped in both orders
    fn pairs_ext_make_inline_clone [22] { pairs(EXT, 5, 0); }
    /// EXT: make_inline, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_make_inline_inner_slice [22] { pairs(EXT, 5, 1); }
    /// EXT: make_inline, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_make_inline_inline_slice [22] { pairs(EXT, 5, 2); }
    /// EXT: vec, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_vec_clone [22] { pairs(EXT, 6, 0); }
    /// EXT: vec, next to a sibling (inner_slice), dropped in both orders
    fn pairs_ext_vec_inner_slice [22] { pairs(EXT, 6, 1); }
    /// EXT: vec, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_vec_inline_slice [22] { pairs(EXT, 6, 2); }
    /// EXT: shared, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_shared_clone [22] { pairs(EXT, 7, 0); }
    /// EXT: shared, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_shared_inner_slice [22] { pairs(EXT, 7, 1); }
    /// EXT: shared, next to a sibling (inline_slice), dropped in both orders
    fn pairs_ext_shared_inline_slice [22] { pairs(EXT, 7, 2); }
    /// EXT: split, next to a sibling (clone), dropped in both orders
    fn pairs_ext_split_clone [22] { pairs(EXT, 8, 0); }
    /// EXT: split, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_split_inner_slice [22] { pairs(EXT, 8, 1); }
    /// EXT: split, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_split_inline_slice [22] { pairs(EXT, 8, 2); }
    /// EXT_SL: move, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_sl_move_clone [22] { pairs(EXT_SL, 0, 0); }
    /// EXT_SL: move, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_sl_move_inner_slice [22] { pairs(EXT_SL, 0, 1); }
    /// EXT_SL: move, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_sl_move_inline_slice [22] { pairs(EXT_SL, 0, 2); }
    /// EXT_SL: into_shared, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_sl_into_shared_clone [22] { pairs(EXT_SL, 1, 0); }
    /// EXT_SL: into_shared, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_sl_into_shared_inner_slice [22] { pairs(EXT_SL, 1, 1); }
    /// EXT_SL: into_shared, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_sl_into_shared_inline_slice [22] { pairs(EXT_SL, 1, 2); }
    /// EXT_SL: into_sliced, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_sl_into_sliced_clone [22] { pairs(EXT_SL, 2, 0); }
    /// EXT_SL: into_sliced, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_sl_into_sliced_inner_slice [22] { pairs(EXT_SL, 2, 1); }
    /// EXT_SL: into_sliced, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_sl_into_sliced_inline_slice [22] { pairs(EXT_SL, 2, 2); }
    /// EXT_SL: into_inline, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_sl_into_inline_clone [22] { pairs(EXT_SL, 3, 0); }
    /// EXT_SL: into_inline, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_sl_into_inline_inner_slice [22] { pairs(EXT_SL, 3, 1); }
    /// EXT_SL: into_inline, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_sl_into_inline_inline_slice [22] { pairs(EXT_SL, 3, 2); }
    /// EXT_SL: into_shared_range, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_sl_into_shared_range_clone [22] { pairs(EXT_SL, 4, 0); }
    /// EXT_SL: into_shared_range, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_sl_into_shared_range_inner_slice [22] { pairs(EXT_SL, 4, 1); }
    /// EXT_SL: into_shared_range, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_sl_into_shared_range_inline_slice [22] { pairs(EXT_SL, 4, 2); }
    /// EXT_SL: make_inline, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_sl_make_inline_clone [22] { pairs(EXT_SL, 5, 0); }
    /// EXT_SL: make_inline, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_sl_make_inline_inner_slice [22] { pairs(EXT_SL, 5, 1); }
    /// EXT_SL: make_inline, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_sl_make_inline_inline_slice [22] { pairs(EXT_SL, 5, 2); }
    /// EXT_SL: vec, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_sl_vec_clone [22] { pairs(EXT_SL, 6, 0); }
    /// EXT_SL: vec, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_sl_vec_inner_slice [22] { pairs(EXT_SL, 6, 1); }
    /// EXT_SL: vec, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_sl_vec_inline_slice [22] { pairs(EXT_SL, 6, 2); }
    /// EXT_SL: shared, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_sl_shared_clone [22] { pairs(EXT_SL, 7, 0); }
    /// EXT_SL: shared, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_sl_shared_inner_slice [22] { pairs(EXT_SL, 7, 1); }
    /// EXT_SL: shared, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_sl_shared_inline_slice [22] { pairs(EXT_SL, 7, 2); }
    /// EXT_SL: split, next to a sibling (clone), dropped in both orders
    fn th_pairs_ext_sl_split_clone [22] { pairs(EXT_SL, 8, 0); }
    /// EXT_SL: split, next to a sibling (inner_slice), dropped in both orders
    fn th_pairs_ext_sl_split_inner_slice [22] { pairs(EXT_SL, 8, 1); }
    /// EXT_SL: split, next to a sibling (inline_slice), dropped in both orders
    fn th_pairs_ext_sl_split_inline_slice [22] { pairs(EXT_SL, 8, 2); }
    /// payload Big, sibling 0
    fn dropped_big_0 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Big(d), &d, 0);
        reach!();
    }
    /// payload Big, sibling 1
    fn dropped_big_1 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Big(d), &d, 1);
        reach!();
    }
    /// payload Big, sibling 2
    fn dropped_big_2 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Big(d), &d, 2);
        reach!();
    }
    /// payload Big, sibling 3
    fn dropped_big_3 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Big(d), &d, 3);
        reach!();
    }
    /// payload Big, sibling 4
    fn th_dropped_big_4 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Big(d), &d, 4);
        reach!();
    }
    /// payload Big, sibling 5
    fn dropped_big_5 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Big(d), &d, 5);
        reach!();
    }
    /// payload Edge, sibling 0
    fn dropped_edge_0 [22] {
        let d: [u8; 15] = any_bytes();
        dropped(Edge(d), &d, 0);
        reach!();
    }
    /// payload Edge, sibling 1
    fn dropped_edge_1 [22] {
        let d: [u8; 15] = any_bytes();
        dropped(Edge(d), &d, 1);
        reach!();
    }
    /// payload Edge, sibling 2
    fn th_dropped_edge_2 [22] {
        let d: [u8; 15] = any_bytes();
        dropped(Edge(d), &d, 2);
        reach!();
    }
    /// payload Edge, sibling 3
    fn th_dropped_edge_3 [22] {
        let d: [u8; 15] = any_bytes();
        dropped(Edge(d), &d, 3);
        reach!();
    }
    /// payload Edge, sibling 4
    fn th_dropped_edge_4 [22] {
        let d: [u8; 15] = any_bytes();
        dropped(Edge(d), &d, 4);
        reach!();
    }
    /// payload Edge, sibling 5
    fn th_dropped_edge_5 [22] {
        let d: [u8; 15] = any_bytes();
        dropped(Edge(d), &d, 5);
        reach!();
    }
    /// payload Wide, sibling 0
    fn dropped_wide_0 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Wide(d), &d, 0);
        reach!();
    }
    /// payload Wide, sibling 1
    fn dropped_wide_1 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Wide(d), &d, 1);
        reach!();
    }
    /// payload Wide, sibling 2
    fn th_dropped_wide_2 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Wide(d), &d, 2);
        reach!();
    }
    /// payload Wide, sibling 3
    fn th_dropped_wide_3 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Wide(d), &d, 3);
        reach!();
    }
    /// payload Wide, sibling 4
    fn th_dropped_wide_4 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Wide(d), &d, 4);
        reach!();
    }
    /// payload Wide, sibling 5
    fn th_dropped_wide_5 [22] {
        let d: [u8; 20] = any_bytes();
        dropped(Wide(d), &d, 5);
        reach!();
    }
    /// payload Small, sibling 0
    fn dropped_small_0 [22] {
        let d: [u8; 14] = any_bytes();
        dropped(Small(d), &d, 0);
        reach!();
    }
    /// payload without anything to drop, one with storage of its own, one of no size
    fn payloads [22] {
        let d: [u8; 20] = any_bytes();
        let p = any_in(0, 3);
        reach!();
        if p == 0 {
            let v = ByteData::from_external(Plain(d));
            let c = v.clone();
            drop(v);
            chk!(holds_all(&c, &d), "plain");
            return;
        }
        if p == 1 {
            let v = ByteData::from_external(Owner(Box::new(d)));
            let c = v.sliced(1..);
            drop(v);
            chk!(holds_all(&c, &d[1..]), "owner");
            return;
        }
        if p == 2 {
            let v = ByteData::from_external(Ghost);
            chk!(holds_all(&v, &GHOST), "ghost");
            let v: Vec<u8> = v.into();
            chk!(same_all(&v, &GHOST), "ghost");
            return;
        }
        let a: std::sync::Arc<[u8]> = (&d[..]).into();
        let v = ByteData::from_external(a.clone());
        chk!(std::sync::Arc::strong_count(&a) == 2, "held once");
        drop(v);
        chk!(std::sync::Arc::strong_count(&a) == 1, "given back");
    }
    /// a vector handed in and taken back: whole, sliced, or while another handle lives
    fn handed_back [22] {
        let d: [u8; 20] = any_bytes();
        let p = any_in(0, 2);
        reach!();
        let mut v = ByteData::from_external(d.to_vec());
        if p == 0 {
            let at = v.as_slice().as_ptr();
            let x: Vec<u8> = v.into();
            chk!(same_all(&x, &d) && x.as_ptr() == at, "the same vector");
            return;
        }
        if p == 1 {
            v.make_sliced(2..18);
            let x: Vec<u8> = v.into();
            chk!(same_all(&x, &d[2..18]), "part of the vector");
            return;
        }
        let c = v.clone();
        let mut x: Vec<u8> = v.into();
        x[0] ^= 1;
        chk!(holds_all(&c, &d), "the other handle");
    }
}
