//! Values of every representation, for the harnesses.
use crate::sym::*;
use bytedata::*;
use core::ops::Bound;

pub const BORROWED: u8 = 0;
pub const CHUNK: u8 = 1;
pub const SHARED: u8 = 2;
/// shared, a slice of a larger buffer
pub const SHARED_SL: u8 = 3;
pub const EXT: u8 = 4;
/// external, a slice of a larger buffer
pub const EXT_SL: u8 = 5;

/// A byte value of representation `k` (external ones fall back to inline when short) holding
/// `buf[lo..hi]`.
#[inline(always)]
pub fn mk<'a>(k: u8, buf: &'a [u8], lo: usize, hi: usize) -> ByteData<'a> {
    match k {
        BORROWED => ByteData::from_borrowed(&buf[lo..hi]),
        CHUNK => ByteData::from_chunk_slice(&buf[lo..hi]),
        SHARED => ByteData::from_shared(SharedBytes::from_slice(&buf[lo..hi])),
        SHARED_SL => ByteData::from_shared(SharedBytes::from_slice(buf).into_sliced(lo, hi - lo)),
        EXT => ByteData::from_external(buf[lo..hi].to_vec()),
        _ => {
            let mut v = ByteData::from_external(buf.to_vec());
            v.make_sliced(lo..hi);
            v
        }
    }
}

/// What every byte value must report.
#[inline(always)]
pub fn holds(v: &ByteData<'_>, d: &[u8]) -> bool {
    v.len() == d.len() && v.is_empty() == d.is_empty() && same(v.as_slice(), d)
}

pub type Bounds = (Bound<usize>, Bound<usize>);

/// Any range whatever, in-range or not, over all of usize.
pub fn any_bounds() -> Bounds {
    let k = any_u8();
    let a = any_usize();
    let b = any_usize();
    let s = match k & 3 {
        0 => Bound::Included(a),
        1 => Bound::Excluded(a),
        _ => Bound::Unbounded,
    };
    let e = match (k >> 2) & 3 {
        0 => Bound::Excluded(b),
        1 => Bound::Included(b),
        _ => Bound::Unbounded,
    };
    (s, e)
}

/// The sub-range of `0..len` it denotes, if it denotes one.
pub fn resolve(r: Bounds, len: usize) -> Option<(usize, usize)> {
    let s = match r.0 {
        Bound::Included(a) => a as u128,
        Bound::Excluded(a) => a as u128 + 1,
        Bound::Unbounded => 0,
    };
    let e = match r.1 {
        Bound::Excluded(b) => b as u128,
        Bound::Included(b) => b as u128 + 1,
        Bound::Unbounded => len as u128,
    };
    if s <= e && e <= len as u128 {
        Some((s as usize, e as usize))
    } else {
        None
    }
}

/// An in-range range of any form, and what it denotes.
pub fn good(len: usize) -> (Bounds, usize, usize) {
    let r = any_bounds();
    let x = resolve(r, len);
    assume(x.is_some());
    let (a, b) = x.unwrap_or((0, 0));
    (r, a, b)
}

/// An out-of-range range of any form.
pub fn bad(len: usize) -> Bounds {
    let r = any_bounds();
    assume(resolve(r, len).is_none());
    r
}

/// `0 <= a <= b <= len`
pub fn any_range(len: usize) -> (usize, usize) {
    let a = any_usize();
    let b = any_usize();
    assume(a <= b && b <= len);
    (a, b)
}

/// As `holds`, byte by byte: cheap when the length is concrete.
#[inline(always)]
pub fn holds_all(v: &ByteData<'_>, d: &[u8]) -> bool {
    v.len() == d.len() && v.is_empty() == d.is_empty() && same_all(v.as_slice(), d)
}

/// `body` for a length that is concrete on each path: 0, 1, 7, and around the inline limit (13, 14,
/// 15, 17) where `max` allows; every length up to `max` in thorough runs.
#[inline(always)]
pub fn lens<F: FnMut(usize)>(max: usize, mut body: F) {
    let n = any_usize();
    assume(n <= max);
    let mut k = 0;
    while k <= max {
        if cfg!(feature = "thorough") || k < 2 || k == 7 || (k >= 13 && k != 16) {
            if n == k {
                body(k);
            }
        } else {
            assume(n != k);
        }
        k += 1;
    }
}

/// Concrete lengths on each path for a value of representation `k`: 0, 1, 14 (the inline limit), 15, 17; fewer
/// for shared ones, whose tag is part of an address and costs the symbolic executor a case split at
/// every step. All of 0..=17 in thorough runs.
#[inline(always)]
pub fn klens<F: FnMut(usize)>(k: u8, mut body: F) {
    let n = any_usize();
    let max = if k == CHUNK { 14 } else { 17 };
    let mut ok = false;
    let mut i = 0;
    while i <= max {
        let on = if cfg!(feature = "thorough") { true } else if k == EXT_SL { i == 17 } else if k == SHARED || k == SHARED_SL { i == 3 || i == 17 } else { i < 2 || i >= 14 && i != 16 };
        if on && n == i {
            ok = true;
            body(i);
        }
        i += 1;
    }
    assume(ok);
}

/// Length of the well-formed UTF-8 character at the front of `b` (Unicode 15, table 3-7), 0 if there is
/// none. An oracle of its own; `p12::std_agrees` shows that it accepts what core's does.
pub fn wf(b: &[u8]) -> usize {
    let c = |i: usize, lo: u8, hi: u8| i < b.len() && b[i] >= lo && b[i] <= hi;
    if b.is_empty() {
        return 0;
    }
    match b[0] {
        0..=0x7F => 1,
        0xC2..=0xDF => if c(1, 0x80, 0xBF) { 2 } else { 0 },
        0xE0 => if c(1, 0xA0, 0xBF) && c(2, 0x80, 0xBF) { 3 } else { 0 },
        0xED => if c(1, 0x80, 0x9F) && c(2, 0x80, 0xBF) { 3 } else { 0 },
        0xE1..=0xEF => if c(1, 0x80, 0xBF) && c(2, 0x80, 0xBF) { 3 } else { 0 },
        0xF0 => if c(1, 0x90, 0xBF) && c(2, 0x80, 0xBF) && c(3, 0x80, 0xBF) { 4 } else { 0 },
        0xF1..=0xF3 => if c(1, 0x80, 0xBF) && c(2, 0x80, 0xBF) && c(3, 0x80, 0xBF) { 4 } else { 0 },
        0xF4 => if c(1, 0x80, 0x8F) && c(2, 0x80, 0xBF) && c(3, 0x80, 0xBF) { 4 } else { 0 },
        _ => 0,
    }
}

/// The code point of the well-formed character at the front of `b`.
pub fn cp(b: &[u8]) -> u32 {
    let x = |i: usize| (b[i] & 0x3F) as u32;
    match wf(b) {
        1 => b[0] as u32,
        2 => ((b[0] & 0x1F) as u32) << 6 | x(1),
        3 => ((b[0] & 0x0F) as u32) << 12 | x(1) << 6 | x(2),
        4 => ((b[0] & 0x07) as u32) << 18 | x(1) << 12 | x(2) << 6 | x(3),
        _ => u32::MAX,
    }
}

/// `b` is well-formed UTF-8 throughout: the automaton of table 3-7, one step per byte.
pub fn wf_all(b: &[u8]) -> bool {
    // 0: between characters; 1, 2, 3: that many continuations due; 4..=7: a restricted one due; 8: no
    let mut st = 0u8;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let within = |lo: u8, hi: u8, to: u8| if c >= lo && c <= hi { to } else { 8 };
        st = match st {
            0 => match c {
                0..=0x7F => 0,
                0xC2..=0xDF => 1,
                0xE0 => 4,
                0xED => 5,
                0xE1..=0xEF => 2,
                0xF0 => 6,
                0xF1..=0xF3 => 3,
                0xF4 => 7,
                _ => 8,
            },
            1 => within(0x80, 0xBF, 0),
            2 => within(0x80, 0xBF, 1),
            3 => within(0x80, 0xBF, 2),
            4 => within(0xA0, 0xBF, 1),
            5 => within(0x80, 0x9F, 1),
            6 => within(0x90, 0xBF, 2),
            7 => within(0x80, 0x8F, 2),
            _ => 8,
        };
        i += 1;
    }
    st == 0
}

/// Whether `i` is a place where the text `b` may be cut.
pub fn boundary(b: &[u8], i: usize) -> bool {
    i == 0 || i == b.len() || (i < b.len() && b[i] & 0xC0 != 0x80)
}

/// Any text (as a str) in the first `n` bytes of `b`.
pub fn text(b: &[u8]) -> &str {
    assume(wf_all(b));
    unsafe { core::str::from_utf8_unchecked(b) }
}

/// First position of `n` in `h`, by definition.
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i + n.len() <= h.len() {
        let mut j = 0;
        while j < n.len() && h[i + j] == n[j] {
            j += 1;
        }
        if j == n.len() {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// First position of `n` in `h` that is not before `start`.
pub fn find_after(h: &[u8], n: &[u8], start: usize) -> Option<usize> {
    if start > h.len() {
        return None;
    }
    match find(&h[start..], n) {
        Some(i) => Some(start + i),
        None => None,
    }
}
