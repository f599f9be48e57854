//! Texts whose characters have fixed first bytes and arbitrary continuation bytes.
use crate::sym::*;
use crate::util::*;
use bytedata::*;

/// In place of a first byte: any ASCII character.
pub const ASC: u8 = 1;

/// A text with the given first bytes of its characters; every continuation byte is arbitrary.
#[inline(always)]
pub fn leads(l: &[u8], d: &mut [u8]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < l.len() {
        d[n] = if l[i] == ASC { any_u8() & 0x7F } else { l[i] };
        n += width(l[i]);
        i += 1;
    }
    assume(wf_all(&d[..n]));
    n
}
pub fn width(l: u8) -> usize {
    match l {
        0..=0x7F => 1,
        0..=0xDF => 2,
        0..=0xEF => 3,
        _ => 4,
    }
}
/// A queue with one chunk per entry of `c` (an empty one where `c` has an empty entry).
#[inline(always)]
pub fn queue<'a>(d: &'a [u8], c: &[&[u8]]) -> StringQueue<'a> {
    let mut q = StringQueue::new();
    let mut at = 0;
    let mut i = 0;
    while i < c.len() {
        let mut n = at;
        let mut j = 0;
        while j < c[i].len() {
            n += width(c[i][j]);
            j += 1;
        }
        q.push_back(unsafe { core::str::from_utf8_unchecked(&d[at..n]) });
        at = n;
        i += 1;
    }
    q
}

/// Lays out the characters of all chunks in turn.
#[inline(always)]
pub fn fill(c: &[&[u8]], d: &mut [u8]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < c.len() {
        n += leads(c[i], &mut d[n..]);
        i += 1;
    }
    n
}
