use crate::sym::*;
use crate::t::*;
use crate::util::*;
use bytedata::*;

fn cut<const N: usize>(d: &[u8; N]) -> &[u8] {
    let n = any_in(0, N);
    &d[..n]
}

/// The characters of the queue, one by one, by `next` of `it`.
macro_rules! drive {
    ($it:ident, $c:ident, $d:ident, $get:expr) => {{
        let mut at = 0;
        let mut left = 0;
        let mut i = 0;
        while i < $c.len() {
            left += $c[i].len();
            i += 1;
        }
        let mut i = 0;
        while i < $c.len() {
            let mut j = 0;
            while j < $c[i].len() {
                let w = width($c[i][j]);
                let h = $it.size_hint();
                chk!(h.0 <= left && h.1.map_or(true, |u| u >= left), "size hint");
                left -= 1;
                match $it.next() {
                    Some(x) => {
                        let (p, c): (Option<usize>, char) = $get(x);
                        chk!(p.map_or(true, |p| p == at), "position");
                        chk!(c as u32 == cp(&$d[at..at + w]), "character");
                    }
                    None => chk!(false, "ends early"),
                }
                at += w;
                j += 1;
            }
            i += 1;
        }
        chk!($it.next().is_none(), "ends late");
        reach!();
    }};
}
#[inline(always)]
fn chars_of(c: &[&[u8]]) {
    let mut d: [u8; 24] = any_bytes();
    fill(c, &mut d);
    let q = queue(&d, c);
    let mut it = q.chars();
    drive!(it, c, d, |x| (None, x));
}
#[inline(always)]
fn indices_of(c: &[&[u8]]) {
    let mut d: [u8; 24] = any_bytes();
    fill(c, &mut d);
    let q = queue(&d, c);
    let mut it = q.chars_indecies();
    drive!(it, c, d, |x: (usize, char)| (Some(x.0), x.1));
}
#[inline(always)]
fn owned_chars(c: &[&[u8]]) {
    let mut d: [u8; 24] = any_bytes();
    fill(c, &mut d);
    let mut it = queue(&d, c).into_chars();
    drive!(it, c, d, |x| (None, x));
}

harnesses! {
    /// const_utf8_char_next on every byte string of up to 5 bytes
    fn raw_next [8] {
        let d: [u8; 5] = any_bytes();
        let d = cut(&d);
        let (v, n) = const_utf8_char_next(d);
        let w = wf(d);
        if w == 0 {
            chk!(v == 0 && n == 0, "ill-formed input is not a character");
        } else {
            chk!(n as usize == w, "length");
            chk!(v == cp(d), "value");
        }
        reach!();
    }
    /// Utf8CharIndices::next_const on every byte string of up to 5 bytes
    fn raw_indices_one [8] {
        let d: [u8; 5] = any_bytes();
        let d = cut(&d);
        let w = wf(d);
        let it = Utf8CharIndices::new(d);
        let h = it.size_hint();
        chk!(h.0 * 4 >= d.len() && h.0 <= d.len() && h.1 == d.len(), "size hint");
        match it.next_const() {
            Ok((rest, at, c)) => {
                chk!(w != 0, "ill-formed input is not a character");
                chk!(at == 0, "position");
                chk!(c as u32 == cp(d), "value");
                chk!(same(rest.remaining(), &d[w.min(d.len())..]), "rest");
            }
            Err((rest, e)) => {
                chk!(w == 0, "well-formed input refused");
                chk!(e.valid_up_to == 0, "error position");
                chk!((e.error_len == 0) == d.is_empty(), "error length");
                chk!(e.error_len as usize <= d.len(), "error length within the input");
                chk!(same(rest.remaining(), if d.is_empty() { d } else { &d[1..] }), "rest after an error");
            }
        }
        reach!();
    }
    /// the second step of the iterator, after a first one over a character or over an ill-formed byte, for
    /// every continuation of up to 3 bytes: positions accumulate, errors skip one byte
    fn raw_indices_two [8] {
        let mut d: [u8; 7] = any_bytes();
        let k = any_in(0, 4);
        split(k, 4, |k| {
            let p: &[u8] = [b"a" as &[u8], &[0xC3, 0xA9], &[0xFF], &[0xE2, 0x82, 0xAC], &[0x80]][k];
            let mut i = 0;
            while i < p.len() {
                d[i] = p[i];
                i += 1;
            }
            let n = any_in(p.len(), p.len() + 3);
            let mut it = Utf8CharIndices::new(&d[..n]);
            match it.next() {
                Some(Ok((at, c))) => chk!(k != 2 && k != 4 && at == 0 && c as u32 == cp(p), "first character"),
                Some(Err(e)) => chk!((k == 2 || k == 4) && e.valid_up_to == 0, "first error"),
                None => chk!(false, "ends early"),
            }
            let r = &d[p.len()..n];
            let w = wf(r);
            match it.next() {
                Some(Ok((at, c))) => chk!(w != 0 && at == p.len() && c as u32 == cp(r), "second character"),
                Some(Err(e)) => chk!(w == 0 && !r.is_empty() && e.valid_up_to == p.len(), "second error"),
                None => chk!(r.is_empty(), "ends early"),
            }
        });
        reach!();
    }
    /// a well-formed text of up to 4 bytes decodes without error to what core's decoder says
    fn raw_vs_core [8] {
        let d: [u8; 4] = any_bytes();
        let d = cut(&d);
        let t = text(d);
        let mut want = t.char_indices();
        let mut it = Utf8CharIndices::new(d);
        let mut k = 0;
        while k < 5 {
            let a = want.next();
            match it.next() {
                Some(Ok(x)) => chk!(a == Some(x), "differs from core"),
                Some(Err(_)) => chk!(false, "error on a text"),
                None => chk!(a.is_none(), "ends early"),
            }
            k += 1;
        }
        reach!();
    }
    /// StringData::iter on texts of two characters of any width
    fn data_iter [8] {
        let mut d: [u8; 8] = any_bytes();
        let n = leads(&[0xDF, 0xE1], &mut d);
        let s = StringData::from_borrowed(unsafe { core::str::from_utf8_unchecked(&d[..n]) });
        let mut it = s.iter();
        let a = it.next();
        let b = it.next();
        chk!(a.map(|c| c as u32) == Some(cp(&d[..2])), "first character");
        chk!(b.map(|c| c as u32) == Some(cp(&d[2..5])), "second character");
        chk!(it.next().is_none(), "ends late");
        reach!();
    }
    /// StringQueue::chars over chunks of characters of every width (first bytes fixed, continuation
    /// bytes arbitrary)
    fn q_chars_a [8] { chars_of(&[b"a", &[0xC3, b'b'], &[0xE2]]); }
    fn q_chars_b [8] { chars_of(&[&[0xF0], b"", &[0xE0, 0xDF]]); }
    fn q_chars_c [8] { chars_of(&[&[0xED, b'z'], &[0xF4]]); }
    fn q_chars_empty [8] { chars_of(&[]); }
    /// StringQueue::chars_indecies: positions too
    fn q_indices_a [8] { indices_of(&[b"a", &[0xC3, b'b'], &[0xE2]]); }
    fn q_indices_b [8] { indices_of(&[&[0xF0], b"", &[0xE0, 0xDF]]); }
    fn q_indices_c [8] { indices_of(&[&[0xED, b'z'], &[0xF4]]); }
    /// StringQueue::into_chars
    fn q_owned_a [8] { owned_chars(&[b"a", &[0xC3, b'b'], &[0xE2]]); }
    fn q_owned_b [8] { owned_chars(&[&[0xF0], b"", &[0xE0, 0xDF]]); }
    fn q_owned_c [8] { owned_chars(&[&[0xED, b'z'], &[0xF4]]); }
    /// more chunks, all classes of first byte
    fn th_q_chars_d [10] { chars_of(&[&[0xC2, 0xF1], b"q", &[0xEF, 0xEE], &[0xF3, 0x7F], &[0xD5]]); }
    fn th_q_indices_d [10] { indices_of(&[&[0xC2, 0xF1], b"q", &[0xEF, 0xEE], &[0xF3, 0x7F], &[0xD5]]); }
    fn th_q_owned_d [10] { owned_chars(&[&[0xC2, 0xF1], b"q", &[0xEF, 0xEE], &[0xF3, 0x7F], &[0xD5]]); }
}
