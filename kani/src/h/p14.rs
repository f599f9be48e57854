//! C14: trimming, taking and splitting text.
use crate::q::is_flat;
use crate::sym::*;
use crate::t::*;
use crate::util::*;
use bytedata::*;

/// White_Space of Unicode 15
fn space(c: u32) -> bool {
    matches!(c, 9..=13 | 0x20 | 0x85 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x2028 | 0x2029 | 0x202F | 0x205F | 0x3000)
}
fn st(d: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(d) }
}
/// A text value over `d`; inline or shared ones as representation `k` says.
#[inline(always)]
fn tx(k: u8, d: &[u8]) -> StringData<'_> {
    unsafe { StringData::from_bytedata_unchecked(mk(k, d, 0, d.len())) }
}
fn is(t: &StringData<'_>, d: &[u8]) -> bool {
    t.len() == d.len() && t.is_empty() == d.is_empty() && same(t.as_bytes(), d)
}

/// `trim` (0), `trim_start` (1), `trim_end` (2)
#[inline(always)]
fn trim(k: u8, l: &[u8], which: u8) {
    let mut d: [u8; 12] = any_bytes();
    let n = leads(l, &mut d);
    let d = &d[..n];
    // first and last character that is not white space
    let mut from = n;
    let mut to = 0;
    let mut at = 0;
    let mut i = 0;
    while i < l.len() {
        let w = width(l[i]);
        if !space(cp(&d[at..])) {
            if from == n {
                from = at;
            }
            to = at + w;
        }
        at += w;
        i += 1;
    }
    if to == 0 {
        from = 0;
    }
    let v = tx(k, d);
    let (t, a, b) = match which {
        0 => (v.trim(), from, to),
        1 => (v.trim_start(), if to == 0 { n } else { from }, n),
        _ => (v.trim_end(), 0, to),
    };
    chk!(is(&t, &d[a..b]), "trimmed text");
    chk!(is(&v, d), "the text trimmed is unchanged");
    reach!();
}
/// `take_while`: the condition sees the characters in order up to the first it turns down
#[inline(always)]
fn whilst(k: u8, l: &[u8]) {
    let mut d: [u8; 12] = any_bytes();
    let n = leads(l, &mut d);
    let d = &d[..n];
    let p = any_in(0, l.len());
    let mut i = 0;
    let mut cut = 0;
    while i <= l.len() {
        if p == i {
            let mut calls = 0;
            let mut at = 0;
            let mut good = true;
            let mut v = tx(k, d);
            let t = StringData::take_while(&mut v, |c| {
                good &= calls < l.len() && c as u32 == cp(&d[at..]);
                at += width(l[calls]);
                calls += 1;
                calls <= i
            });
            chk!(good && calls == if i < l.len() { i + 1 } else { i }, "calls of the condition");
            chk!(is(&t, &d[..cut]), "text taken");
            chk!(is(&v, &d[cut..]), "text left");
            reach!();
            return;
        }
        if i < l.len() {
            cut += width(l[i]);
        }
        i += 1;
    }
}
/// The text `a` with some of its characters newlines; every combination.
#[inline(always)]
fn newlines<F: FnMut(&[u8])>(a: &[u8], mut f: F) {
    let c = any_in(0, (1 << a.len()) - 1);
    let mut k = 0;
    while k < 1 << a.len() {
        if c == k {
            let mut d = [0u8; 12];
            let mut at = 0;
            let mut i = 0;
            while i < a.len() {
                if k >> i & 1 == 1 {
                    d[at] = b'\n';
                    at += 1;
                } else if width(a[i]) == 1 {
                    d[at] = a[i];
                    at += 1;
                } else {
                    at += leads(&a[i..i + 1], &mut d[at..]);
                }
                i += 1;
            }
            f(&d[..at]);
            reach!();
            return;
        }
        k += 1;
    }
}
/// `take_line` until the text is used up
#[inline(always)]
fn lines(k: u8, a: &[u8]) {
    newlines(a, |d| {
        let mut v = tx(k, d);
        let mut at = 0;
        while at < d.len() {
            let end = match find(&d[at..], b"\n") {
                Some(i) => at + i + 1,
                None => d.len(),
            };
            let t = v.take_line();
            chk!(is(&t, &d[at..end]), "line taken");
            chk!(is(&v, &d[end..]), "text left after a line");
            at = end;
        }
        chk!(v.take_line().is_empty() && v.is_empty(), "no line left");
    });
}
/// the same for a queue
#[inline(always)]
fn qlines(a: &[u8], cut: usize) {
    newlines(a, |d| {
        let mut q = StringQueue::new();
        q.push_back(st(&d[..cut]));
        q.push_back(st(&d[cut..]));
        let mut at = 0;
        while at < d.len() {
            let end = match find(&d[at..], b"\n") {
                Some(i) => at + i + 1,
                None => d.len(),
            };
            let t = q.take_line();
            is_flat(t.as_bytequeue(), &d[at..end]);
            is_flat(q.as_bytequeue(), &d[end..]);
            at = end;
        }
        chk!(q.take_line().is_empty() && q.is_empty(), "no line left");
    });
}
/// `split_at` at every character boundary
#[inline(always)]
fn at(k: u8, l: &[u8]) {
    let mut d: [u8; 12] = any_bytes();
    let n = leads(l, &mut d);
    let d = &d[..n];
    let p = any_in(0, n);
    assume(boundary(d, p));
    let (a, b) = tx(k, d).split_at(p);
    chk!(is(&a, &d[..p]) && is(&b, &d[p..]), "parts of split_at");
    reach!();
}
/// `sliced`, `into_sliced`, `make_sliced`, `into_shared_range` between every two character boundaries
#[inline(always)]
fn cut(k: u8, l: &[u8], how: u8) {
    let mut d: [u8; 12] = any_bytes();
    let n = leads(l, &mut d);
    let d = &d[..n];
    let (a, b) = any_range(n);
    assume(boundary(d, a) && boundary(d, b));
    let mut v = tx(k, d);
    match how {
        0 => {
            chk!(is(&v.sliced(a..b), &d[a..b]), "sliced text");
            chk!(is(&v, d), "the text sliced is unchanged");
            chk!(is(&v.sliced(a..), &d[a..]) && is(&v.sliced(..b), &d[..b]), "open ranges of a text");
            if b > a && boundary(d, b) {
                chk!(is(&v.sliced(a..=b - 1), &d[a..b]), "inclusive range of a text");
            }
        }
        1 => chk!(is(&v.into_sliced(a..b), &d[a..b]), "into_sliced text"),
        2 => {
            v.make_sliced(a..b);
            chk!(is(&v, &d[a..b]), "text after make_sliced");
        }
        _ => {
            let t = v.into_shared_range(a..b);
            chk!(t.len() == b - a && same(t.as_bytes(), &d[a..b]), "text of into_shared_range");
        }
    }
    reach!();
}
/// `split_once_on`
#[inline(always)]
fn once(k: u8, l: &[u8], m: &[u8]) {
    let mut d: [u8; 12] = any_bytes();
    let n = leads(l, &mut d);
    let d = &d[..n];
    let mut w: [u8; 4] = any_bytes();
    let m = leads(m, &mut w);
    let w = &w[..m];
    let want = find(d, w);
    match (tx(k, d).split_once_on(st(w)), want) {
        (Ok((a, b)), Some(i)) => chk!(is(&a, &d[..i]) && is(&b, &d[i..]), "parts of split_once_on"),
        (Err(v), None) => chk!(is(&v, d), "text handed back by split_once_on"),
        _ => chk!(false, "split_once_on finds what is there"),
    }
    reach!();
}
/// pieces of `split_on`
#[inline(always)]
fn pieces<'a>(mut it: impl Iterator<Item = StringData<'a>>, d: &[u8], w: &[u8]) {
    let mut at = 0;
    let mut done = d.is_empty();
    while !done {
        let cut = if w.is_empty() { None } else { find_after(d, w, at) };
        let to = cut.unwrap_or(d.len());
        match it.next() {
            Some(t) => chk!(t.len() == to - at && same_all(t.as_bytes(), &d[at..to]), "piece of a text"),
            None => chk!(false, "a piece is missing"),
        }
        done = cut.is_none();
        at = to + w.len();
    }
    chk!(it.next().is_none(), "a piece too many");
}
#[inline(always)]
fn qpieces<'a>(mut it: impl Iterator<Item = StringQueue<'a>>, d: &[u8], w: &[u8], max: usize) {
    let mut at = 0;
    let mut left = max;
    let mut done = d.is_empty();
    while !done {
        let cut = if left == 1 { None } else { find_after(d, w, at) };
        let to = cut.unwrap_or(d.len());
        match it.next() {
            Some(t) => is_flat(t.as_bytequeue(), &d[at..to]),
            None => chk!(false, "a piece is missing"),
        }
        done = cut.is_none();
        at = to + w.len();
        left = left.saturating_sub(1);
    }
    chk!(it.next().is_none(), "a piece too many");
}
/// `StringQueue::take_while` and `find_char`
#[inline(always)]
fn qwhile(c: &[&[u8]], find: bool, fixed: &[u8]) {
    let mut d: [u8; 12] = any_bytes();
    let n = if fixed.is_empty() { fill(c, &mut d) } else { fixed.len() };
    // searching decodes any text; taking is cut where the search says, so its texts are fixed ones
    let d = if fixed.is_empty() { &d[..n] } else { fixed };
    let mut l = [0u8; 6];
    let mut m = 0;
    let mut i = 0;
    while i < c.len() {
        let mut j = 0;
        while j < c[i].len() {
            l[m] = c[i][j];
            m += 1;
            j += 1;
        }
        i += 1;
    }
    let mut q = queue(d, c);
    let p = any_in(0, m);
    let mut cut = 0;
    let mut i = 0;
    while i <= m {
        if p == i {
            let mut calls = 0;
            let mut at = 0;
            let mut good = true;
            let mut see = |c: char| {
                good &= calls < m && c as u32 == cp(&d[at..]);
                at += width(l[calls]);
                calls += 1;
                calls <= i
            };
            if find {
                let f = q.find_char(|c| !see(c));
                chk!(f == if i < m { Some(cut) } else { None }, "find_char");
                is_flat(q.as_bytequeue(), d);
            } else {
                let t = StringQueue::take_while(&mut q, see);
                is_flat(t.as_bytequeue(), &d[..cut]);
                is_flat(q.as_bytequeue(), &d[cut..]);
            }
            chk!(good && calls == if i < m { i + 1 } else { i }, "calls of the condition");
            reach!();
            return;
        }
        if i < m {
            cut += width(l[i]);
        }
        i += 1;
    }
}
/// `StringQueue::split_off` (0), `slice` (1), `drain` (2), `replace_range` (3) at the boundaries given
#[inline(always)]
fn qcut(c: &[&[u8]], how: u8, a: usize, b: usize) {
    let mut d: [u8; 12] = any_bytes();
    let n = fill(c, &mut d);
    let d = &d[..n];
    let mut q = queue(d, c);
    match how {
        0 => {
            let t = q.split_off(a);
            is_flat(t.as_bytequeue(), &d[a..]);
            is_flat(q.as_bytequeue(), &d[..a]);
        }
        1 => {
            is_flat(q.slice(a..b).as_bytequeue(), &d[a..b]);
            is_flat(q.as_bytequeue(), d);
        }
        2 => {
            drop(q.drain(a..b));
            let mut f = [0u8; 12];
            f[..a].copy_from_slice(&d[..a]);
            f[a..a + n - b].copy_from_slice(&d[b..]);
            is_flat(q.as_bytequeue(), &f[..a + n - b]);
        }
        _ => {
            q.replace_range(a..b, StringData::from_static("\u{e9}-"));
            let mut f = [0u8; 16];
            f[..a].copy_from_slice(&d[..a]);
            f[a..a + 3].copy_from_slice("\u{e9}-".as_bytes());
            f[a + 3..a + 3 + n - b].copy_from_slice(&d[b..]);
            is_flat(q.as_bytequeue(), &f[..a + 3 + n - b]);
        }
    }
    reach!();
}

harnesses! {
    /// trim, trim_start, trim_end of texts with first bytes fixed and every other byte arbitrary
    fn trim_ascii [10] { trim(BORROWED, &[ASC, ASC, ASC], 0); }
    fn trim_start_ascii [10] { trim(BORROWED, &[ASC, ASC, ASC], 1); }
    fn trim_end_ascii [10] { trim(BORROWED, &[ASC, ASC, ASC], 2); }
    fn trim_wide_a [10] { trim(CHUNK, &[0xC2, b'x', 0xE2], 0); }
    fn trim_wide_b [10] { trim(BORROWED, &[0xE1, 0xC2, 0xE3], 0); }
    fn trim_start_wide [10] { trim(BORROWED, &[b' ', 0xE2, 0xC2], 1); }
    fn trim_end_wide [10] { trim(CHUNK, &[0xC2, 0xE3, b' '], 2); }
    fn trim_all [10] { trim(BORROWED, &[b' ', b'\n'], 0); }
    fn trim_empty [10] { trim(BORROWED, &[], 0); trim(CHUNK, &[], 1); trim(BORROWED, &[], 2); }
    fn trim_shared [10] { trim(SHARED, b" a ", 0); }
    fn trim_ext [10] { trim(EXT_SL, b" a ", 0); }
    /// take_while with every outcome of the condition
    fn while_a [10] { whilst(BORROWED, &[b'a', 0xC3, 0xE2]); }
    fn while_b [10] { whilst(CHUNK, &[0xF0, b'z', 0xDF]); }
    fn while_ext [10] { whilst(EXT_SL, &[0xC3, b'z']); }
    fn while_empty [10] { whilst(BORROWED, &[]); }
    /// take_line until the text is used up, with newlines anywhere
    fn lines_borrowed [12] { lines(BORROWED, b"abc"); }
    fn lines_chunk [12] { lines(CHUNK, &[0xC3, b'x', 0xE2]); }
    fn lines_ext [12] { lines(EXT_SL, b"a"); }
    fn queue_lines [12] { qlines(b"ab", 1); }
    fn queue_lines_long [12] { qlines(b"abc", 1); }
    /// split_at at every boundary
    fn at_a [12] { at(BORROWED, &[ASC, 0xC3, 0xE2]); }
    fn at_b [12] { at(CHUNK, &[0xF1, ASC, 0xED]); }
    fn at_ext [12] { at(EXT_SL, &[0xC3, b'z']); }
    /// cutting between every two boundaries
    fn cut_ref [12] { cut(BORROWED, &[ASC, 0xC3, 0xE2], 0); }
    fn cut_ref_chunk [12] { cut(CHUNK, &[0xF4, ASC, 0xC3], 0); }
    fn cut_into [12] { cut(BORROWED, &[ASC, 0xC3, 0xE2], 1); }
    fn cut_make [12] { cut(CHUNK, &[0xE0, 0xC3, ASC], 2); }
    fn cut_shared [12] { cut(BORROWED, &[ASC, 0xC3, 0xE2], 3); }
    /// split_once_on
    fn once_ascii [10] { once(BORROWED, &[ASC, ASC, ASC, ASC], &[ASC]); }
    fn once_two [10] { once(CHUNK, &[ASC, ASC, ASC, ASC], &[ASC, ASC]); }
    fn once_wide [10] { once(BORROWED, &[0xC3, b'x', 0xC3, 0xC3], &[0xC3]); }
    fn once_none [10] { once(CHUNK, &[0xC3, b'x'], &[]); }
    /// split_on
    fn on_text [10] {
        pieces(tx(BORROWED, "a\u{e9}\u{e9}b\u{e9}".as_bytes()).split_on("\u{e9}"), "a\u{e9}\u{e9}b\u{e9}".as_bytes(), "\u{e9}".as_bytes());
        pieces(tx(CHUNK, b"xaxx").split_on("x"), b"xaxx", b"x");
        pieces(tx(CHUNK, b"ab").split_on(""), b"ab", b"");
        pieces(tx(CHUNK, b"").split_on("x"), b"", b"x");
        reach!();
    }
    fn on_queue [12] {
        let d = "a\u{e9}\u{e9}b\u{e9}".as_bytes();
        let q = queue(d, &[&[b'a', 0xC3], &[0xC3, b'b'], &[0xC3]]);
        qpieces(q.split_on("\u{e9}"), d, "\u{e9}".as_bytes(), 0);
        reach!();
    }
    fn on_queue_n [12] {
        let d = b"axbxxc";
        let q = queue(d, &[b"ax", b"bx", b"xc"]);
        let m = any_in(1, 4);
        split(m, 4, |m| if m > 0 { qpieces(q.splitn_on("x", m), d, b"x", m) });
        reach!();
    }
    fn on_queue_bytes [12] {
        let d = b"abcabd";
        let q = queue(d, &[b"a", b"bca", b"bd"]);
        let mut n = 0;
        let mut it = q.split_on_bytes(b"ab");
        is_flat(&it.next().unwrap(), b"");
        is_flat(&it.next().unwrap(), b"c");
        is_flat(&it.next().unwrap(), b"d");
        chk!(it.next().is_none(), "a piece too many");
        let mut it = q.splitn_on_bytes(b"ab", 2);
        is_flat(&it.next().unwrap(), b"");
        is_flat(&it.next().unwrap(), b"cabd");
        chk!(it.next().is_none(), "a piece too many");
        reach!();
    }
    /// take_while and find_char of a queue, with every outcome of the condition
    fn queue_while_a [10] { qwhile(&[&[b'a', 0xC3], &[0xE2, b'b']], false, "a\u{e9}\u{20ac}b".as_bytes()); }
    fn queue_while_b [10] { qwhile(&[&[0xF0], &[0xC3], b"a"], false, "\u{1f600}\u{e9}a".as_bytes()); }
    fn queue_find [10] { qwhile(&[&[0xF0], b"", &[0xC3, b'a', 0xE2]], true, &[]); }
    /// cutting queues at boundaries inside and between chunks
    fn queue_off [12] {
        let p = any_in(0, 3);
        split(p, 3, |p| qcut(&[&[b'a', 0xC3], &[0xE2, b'b']], 0, [0, 1, 3, 6][p], 0));
    }
    fn queue_slice [12] {
        let p = any_in(0, 3);
        split(p, 3, |p| qcut(&[&[b'a', 0xC3], &[0xE2, b'b']], 1, [0, 1, 3, 6][p], 7));
    }
    fn queue_slice_in [12] {
        let p = any_in(0, 2);
        split(p, 2, |p| qcut(&[&[0xF0, 0xC3], &[0xE2, 0xDF]], 1, [0, 4, 6][p], [4, 9, 6][p]));
    }
    fn queue_drain [12] {
        let p = any_in(0, 3);
        split(p, 3, |p| qcut(&[&[b'a', 0xC3], &[0xE2, b'b']], 2, [0, 1, 3, 3][p], [1, 6, 3, 7][p]));
    }
    /// the number of drained characters, and the last of them
    fn queue_drain_count [12] {
        let mut q = queue("a\u{e9}b".as_bytes(), &[&[b'a', 0xC3, b'b']]);
        chk!(q.drain(1..4).count() == 2, "number of drained characters");
        is_flat(q.as_bytequeue(), b"a");
        reach!();
    }
    fn queue_drain_last [12] {
        let mut q = queue("a\u{e9}b".as_bytes(), &[&[b'a', 0xC3, b'b']]);
        chk!(q.drain(0..3).last() == Some('\u{e9}'), "last drained character");
        is_flat(q.as_bytequeue(), b"b");
        reach!();
    }
    fn queue_replace [12] {
        let p = any_in(0, 3);
        split(p, 3, |p| qcut(&[&[b'a', 0xC3], &[0xE2, b'b']], 3, [0, 1, 3, 7][p], [1, 6, 3, 7][p]));
    }
}
