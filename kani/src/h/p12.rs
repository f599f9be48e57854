//! C12: text is always valid UTF-8.
use crate::sym::*;
use crate::t::*;
use crate::util::*;
use bytedata::*;

fn st(d: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(d) }
}
#[inline(always)]
fn tx(k: u8, d: &[u8]) -> StringData<'_> {
    unsafe { StringData::from_bytedata_unchecked(mk(k, d, 0, d.len())) }
}
/// Some bytes offered as text by way of `how`: taken exactly when well-formed, handed back if not.
#[inline(always)]
fn offer(k: u8, n: usize, how: u8) {
    let d: [u8; 5] = any_bytes();
    let d = &d[..n];
    let valid = wf_all(d);
    let v = mk(k, d, 0, n);
    let r = match how {
        0 => StringData::try_from_bytedata(v),
        _ => StringData::try_from(v),
    };
    match r {
        Ok(t) => {
            chk!(valid, "ill-formed bytes taken as text");
            chk!(t.len() == n && same(t.as_bytes(), d), "text taken");
        }
        Err(b) => {
            chk!(!valid, "well-formed bytes refused");
            chk!(b.len() == n && same(b.as_slice(), d), "bytes handed back");
        }
    }
    reach!();
}
#[inline(always)]
fn offer_shared(n: usize, how: u8) {
    let d: [u8; 5] = any_bytes();
    let d = &d[..n];
    let valid = wf_all(d);
    let v = SharedBytes::from_slice(d);
    let r = match how {
        0 => StringData::try_from_shared(v),
        _ => StringData::try_from(v),
    };
    match r {
        Ok(t) => {
            chk!(valid, "ill-formed bytes taken as text");
            chk!(t.len() == n && same(t.as_bytes(), d), "text taken");
        }
        Err(b) => {
            chk!(!valid, "well-formed bytes refused");
            chk!(b.len() == n && same(b.as_slice(), d), "bytes handed back");
        }
    }
    reach!();
}
#[inline(always)]
fn offer_builder(n: usize) {
    let d: [u8; 5] = any_bytes();
    let d = &d[..n];
    let mut b = SharedBytesBuilder::with_capacity(8);
    b.extend_from_slice(d);
    match SharedStrBuilder::try_from(b) {
        Ok(t) => chk!(wf_all(d) && t.len() == n && same(t.as_bytes(), d), "text taken"),
        Err(_) => chk!(!wf_all(d), "well-formed bytes refused"),
    }
    reach!();
}
/// a range of which one end at least is inside a character
#[inline(always)]
fn split_range(d: &[u8]) -> (usize, usize) {
    let (a, b) = any_range(d.len());
    assume(!boundary(d, a) || !boundary(d, b));
    (a, b)
}
const L: &[u8] = &[ASC, 0xC3, 0xE2, 0xF1];
#[inline(always)]
fn some(d: &mut [u8; 12]) -> &[u8] {
    let n = leads(L, d);
    &d[..n]
}
/// cutting a queue: `how` 0 split_off, 1 slice, 2 drain, 3 replace_range
#[inline(always)]
fn qcut(how: u8, a: usize, b: usize) {
    let mut d: [u8; 12] = any_bytes();
    let c: &[&[u8]] = &[&[b'a', 0xC3], &[0xE2, 0xF0]];
    let n = fill(c, &mut d);
    let d = &d[..n];
    let mut q = queue(d, c);
    match how {
        0 => refused!({ let _ = q.split_off(a); }, "split_off inside a character"),
        1 => refused!(q.slice(a..b), "slice inside a character"),
        2 => refused!(drop(q.drain(a..b)), "drain inside a character"),
        _ => refused!(q.replace_range(a..b, StringData::from_static("xy")), "replace_range inside a character"),
    }
}
/// Every pair of positions in `0..=10` (chunks a e: 0 1 3, E2 F0: 3 6 10) of which the one chosen by `end` is
/// inside a character.
#[inline(always)]
fn qcuts(how: u8, end: bool, other: &[usize]) {
    let bad = [2, 4, 5, 7, 8, 9];
    let i = any_in(0, 5);
    let o = any_in(0, other.len() - 1);
    let mut k = 0;
    while k < 6 {
        let mut j = 0;
        while j < other.len() {
            if i == k && o == j {
                let (a, b) = if end { (other[j], bad[k]) } else { (bad[k], other[j]) };
                assume(a <= b);
                if a <= b {
                    qcut(how, a, b);
                }
                return;
            }
            j += 1;
        }
        k += 1;
    }
}

harnesses! {
    /// the test for well-formedness used here is core's, for all inputs of up to 4 bytes
    fn std_agrees [8] {
        let d: [u8; 4] = any_bytes();
        let n = any_in(0, 4);
        chk!(core::str::from_utf8(&d[..n]).is_ok() == wf_all(&d[..n]), "core's from_utf8");
        reach!();
    }
    fn th_std_agrees5 [8] {
        let d: [u8; 5] = any_bytes();
        chk!(core::str::from_utf8(&d).is_ok() == wf_all(&d), "core's from_utf8");
        reach!();
    }
    /// any 0 to 4 bytes offered as text, of a borrowed, inline, shared or external value
    fn data_0 [8] { offer(BORROWED, 0, 0); }
    fn data_1 [8] { offer(CHUNK, 1, 0); }
    fn data_2 [8] { offer(BORROWED, 2, 0); }
    fn data_3 [8] { offer(BORROWED, 3, 0); }
    fn data_4 [8] { offer(BORROWED, 4, 0); }
    fn data_chunk [8] { offer(CHUNK, 4, 0); }
    fn th_data_shared [8] { offer(SHARED, 3, 0); }
    fn data_ext [8] { offer(EXT_SL, 3, 0); }
    fn th_data_5 [8] { offer(BORROWED, 5, 0); }
    fn try_2 [8] { offer(CHUNK, 2, 1); }
    fn try_3 [8] { offer(BORROWED, 3, 1); }
    fn try_4 [8] { offer(CHUNK, 4, 1); }
    /// any shared buffer of up to 4 bytes offered as text
    fn shared_2 [8] { offer_shared(2, 0); }
    fn shared_3 [8] { offer_shared(3, 0); }
    fn shared_4 [8] { offer_shared(4, 0); }
    fn shared_try [8] { offer_shared(3, 1); }
    /// any builder of up to 4 bytes offered as text builder
    fn builder_2 [8] { offer_builder(2); }
    fn builder_3 [8] { offer_builder(3); }
    fn builder_4 [8] { offer_builder(4); }
    /// any character pushed to a text builder is there, encoded as core encodes it
    fn push_any [8] {
        let c = any_char();
        let mut b = SharedStrBuilder::with_capacity(12);
        b.push_str("x");
        b.push(c);
        let d = b.as_bytes();
        chk!(d.len() == 1 + c.len_utf8() && d[0] == b'x' && wf(&d[1..]) == d.len() - 1 && cp(&d[1..]) == c as u32, "character pushed");
        reach!();
    }
    /// truncating a text builder at a character boundary, or beyond the end
    fn truncate_ok [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let mut b = SharedStrBuilder::with_capacity(16);
        b.push_str(st(d));
        let p = any_usize();
        assume(p >= d.len() || boundary(d, p));
        b.truncate(p);
        let n = p.min(d.len());
        chk!(b.len() == n && same(b.as_bytes(), &d[..n]), "text truncated");
        reach!();
    }
    fn rej_truncate [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let mut b = SharedStrBuilder::with_capacity(16);
        b.push_str(st(d));
        let p = any_in(0, d.len());
        assume(!boundary(d, p));
        refused!(b.truncate(p), "truncate inside a character");
    }
    /// every way of cutting a text value, with an end inside a character: refused
    fn rej_sliced [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let (a, b) = split_range(d);
        refused!(tx(BORROWED, d).sliced(a..b), "sliced inside a character");
    }
    fn rej_sliced_from [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let p = any_in(0, d.len());
        assume(!boundary(d, p));
        let v = tx(CHUNK, d);
        if any_bool() {
            refused!(v.sliced(p..), "sliced from inside a character");
        } else {
            refused!(v.sliced(..p), "sliced to inside a character");
        }
    }
    fn rej_sliced_incl [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let (a, b) = any_range(d.len() - 1);
        assume(!boundary(d, a) || !boundary(d, b + 1));
        refused!(tx(CHUNK, d).sliced(a..=b), "inclusive range inside a character");
    }
    fn rej_into [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let (a, b) = split_range(d);
        refused!(tx(CHUNK, d).into_sliced(a..b), "into_sliced inside a character");
    }
    fn rej_make [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let (a, b) = split_range(d);
        let mut v = tx(BORROWED, d);
        refused!(v.make_sliced(a..b), "make_sliced inside a character");
    }
    fn rej_shared_range [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let (a, b) = split_range(d);
        refused!(tx(BORROWED, d).into_shared_range(a..b), "into_shared_range inside a character");
    }
    fn rej_split_at [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let p = any_in(0, d.len());
        assume(!boundary(d, p));
        refused!(tx(CHUNK, d).split_at(p), "split_at inside a character");
    }
    /// every way of cutting a text queue, with an end inside a character: refused
    fn rej_q_split_off [16] { qcuts(0, false, &[10]); }
    fn rej_q_slice_start [16] { qcuts(1, false, &[10, 6]); }
    fn rej_q_slice_end [16] { qcuts(1, true, &[0, 3]); }
    fn rej_q_drain_start [16] { qcuts(2, false, &[10, 6]); }
    fn rej_q_drain_end [16] { qcuts(2, true, &[0, 1]); }
    fn rej_q_drain_same [16] {
        let bad = [2, 4, 5, 7, 8, 9];
        let p = any_in(0, 5);
        split(p, 5, |p| qcut(2, bad[p], bad[p]));
    }
    fn rej_q_replace_start [16] { qcuts(3, false, &[10, 6]); }
    fn rej_q_replace_end [16] { qcuts(3, true, &[0, 1]); }
    fn rej_q_replace_same [16] {
        let bad = [2, 4, 5, 7, 8, 9];
        let p = any_in(0, 5);
        split(p, 5, |p| qcut(3, bad[p], bad[p]));
    }
    /// taking characters one by one from a text value: each is whole, and what is left is a text
    fn next_a [12] {
        let mut d: [u8; 12] = any_bytes();
        let l = [ASC, 0xC3, 0xE2];
        let n = leads(&l, &mut d);
        let mut v = tx(BORROWED, &d[..n]);
        let mut at = 0;
        let mut i = 0;
        while i < 3 {
            let h = v.size_hint();
            chk!(h.0 <= 3 - i && h.1.map_or(true, |u| u >= 3 - i), "size hint of a text value");
            chk!(v.next().map(|c| c as u32) == Some(cp(&d[at..n])), "next character");
            at += width(l[i]);
            chk!(v.len() == n - at && same(v.as_bytes(), &d[at..n]), "text left");
            i += 1;
        }
        chk!(v.next().is_none() && v.is_empty(), "a text used up");
        reach!();
    }
    fn next_b [12] {
        let mut d: [u8; 12] = any_bytes();
        let l = [0xF4, 0xE0, ASC];
        let n = leads(&l, &mut d);
        let mut v = tx(CHUNK, &d[..n]);
        let mut at = 0;
        let mut i = 0;
        while i < 3 {
            chk!(v.next().map(|c| c as u32) == Some(cp(&d[at..n])), "next character");
            at += width(l[i]);
            chk!(v.len() == n - at && same(v.as_bytes(), &d[at..n]), "text left");
            i += 1;
        }
        chk!(v.next().is_none() && v.is_empty(), "a text used up");
        reach!();
    }
    /// out to String, Cow and Vec, and in from String and Cow, unchanged
    fn to_std [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let s: String = tx(BORROWED, d).into();
        chk!(same_all(s.as_bytes(), d), "String");
        let v: Vec<u8> = tx(CHUNK, d).into();
        chk!(same_all(&v, d), "Vec");
        reach!();
    }
    fn to_cow [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let c: std::borrow::Cow<'_, str> = tx(BORROWED, d).into();
        chk!(same_all(c.as_bytes(), d), "Cow");
        let c: std::borrow::Cow<'_, str> = tx(CHUNK, d).into();
        chk!(same_all(c.as_bytes(), d), "Cow");
        reach!();
    }
    fn concat [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let t = StringData::from_concat(&[st(&d[..3]), st(&d[3..6]), "", st(&d[6..])]);
        chk!(t.len() == 10 && same_all(t.as_bytes(), d), "from_concat");
        let t = StringData::from_concat(&[st(d), st(&d[..6])]);
        chk!(t.len() == 16 && same_all(&t.as_bytes()[..10], d) && same_all(&t.as_bytes()[10..], &d[..6]), "from_concat, shared");
        reach!();
    }
    fn from_std [12] {
        let mut d: [u8; 12] = any_bytes();
        let d = some(&mut d);
        let s = String::from(st(d));
        let t = StringData::from_owned(s);
        chk!(t.len() == 10 && same_all(t.as_bytes(), d), "from_owned");
        let t = StringData::from_cow(std::borrow::Cow::Borrowed(st(d)));
        chk!(t.len() == 10 && same_all(t.as_bytes(), d), "from_cow");
        reach!();
    }
    /// from a queue of texts back to one text
    fn q_to_data [16] {
        let mut d: [u8; 12] = any_bytes();
        let c: &[&[u8]] = &[&[b'a', 0xC3], &[0xE2]];
        let n = fill(c, &mut d);
        let t = StringData::from(queue(&d[..n], c));
        chk!(t.len() == n && same_all(t.as_bytes(), &d[..n]), "StringData from a queue");
        reach!();
    }
    fn q_to_string [16] {
        let mut d: [u8; 12] = any_bytes();
        let c: &[&[u8]] = &[&[b'a', 0xC3], &[0xE2]];
        let n = fill(c, &mut d);
        let t = String::from(queue(&d[..n], c));
        chk!(t.len() == n && same_all(t.as_bytes(), &d[..n]), "String from a queue");
        reach!();
    }
}
