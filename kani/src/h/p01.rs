use crate::sym::*;
use crate::util::*;
use bytedata::*;
use std::borrow::Cow;

static FIXED: [u8; 20] = *b"0123456789abcdefghij";

/// The value holds what it was built from, and so does its clone, whichever is dropped first.
#[inline(always)]
fn cloned(k: u8) {
    let d: [u8; 20] = any_bytes();
    klens(k, |n| {
        let want = &d[1..1 + n];
        let v = mk(k, &d, 1, 1 + n);
        chk!(holds_all(&v, want), "constructed");
        let c = v.clone();
        drop(v);
        chk!(holds_all(&c, want), "clone");
    });
    reach!();
}
#[inline(always)]
fn shared(k: u8) {
    let d: [u8; 20] = any_bytes();
    klens(k, |n| {
        let want = &d[1..1 + n];
        let s = mk(k, &d, 1, 1 + n).into_shared();
        chk!(holds_all(&s, want), "into_shared");
    });
    reach!();
}
#[inline(always)]
fn vec(k: u8) {
    let d: [u8; 20] = any_bytes();
    klens(k, |n| {
        let want = &d[1..1 + n];
        let o: Vec<u8> = mk(k, &d, 1, 1 + n).into();
        chk!(same_all(&o, want), "Vec::from");
    });
    reach!();
}
#[inline(always)]
fn cow(k: u8) {
    let d: [u8; 20] = any_bytes();
    klens(k, |n| {
        let want = &d[1..1 + n];
        let w: Cow<'_, [u8]> = mk(k, &d, 1, 1 + n).into();
        chk!(same_all(&w, want), "Cow::from");
    });
    reach!();
}
#[inline(always)]
fn sb(k: u8) {
    let d: [u8; 20] = any_bytes();
    klens(k, |n| {
        let want = &d[1..1 + n];
        let s: SharedBytes = mk(k, &d, 1, 1 + n).into();
        chk!(s.len() == want.len() && s.is_empty() == want.is_empty(), "shared length");
        chk!(same_all(s.as_slice(), want), "shared content");
        let b = ByteData::from(s);
        chk!(holds_all(&b, want), "back from shared");
    });
    reach!();
}

/// an iterator with an exact, absent, lower-bound-only or generous size hint
fn collect<const K: u8>() {
        struct It<'a>(&'a [u8], usize, u8);
        impl Iterator for It<'_> {
            type Item = u8;
            fn next(&mut self) -> Option<u8> {
                let r = self.0.get(self.1).copied();
                self.1 += 1;
                r
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                let left = self.0.len().saturating_sub(self.1);
                match self.2 {
                    0 => (left, Some(left)),
                    1 => (0, None),
                    2 => (left, None),
                    _ => (0, Some(left + 20)),
                }
            }
        }
        let d: [u8; 17] = any_bytes();
        lens(17, |n| {
            let v: ByteData<'_> = It(&d[..n], 0, K).collect();
            chk!(holds_all(&v, &d[..n]), "collect");
        });
        reach!();
}

harnesses! {
    /// construct, clone, drop the original
    fn cloned_borrowed [22] { cloned(BORROWED); }
    /// construct, clone, drop the original
    fn cloned_chunk [22] { cloned(CHUNK); }
    /// construct, clone, drop the original
    fn cloned_shared [22] { cloned(SHARED); }
    /// construct, clone, drop the original
    fn cloned_shared_sl [22] { cloned(SHARED_SL); }
    /// construct, clone, drop the original
    fn cloned_ext [22] { cloned(EXT); }
    /// construct, clone, drop the original
    fn cloned_ext_sl [22] { cloned(EXT_SL); }
    /// into_shared
    fn shared_borrowed [22] { shared(BORROWED); }
    /// into_shared
    fn shared_chunk [22] { shared(CHUNK); }
    /// into_shared
    fn shared_shared [22] { shared(SHARED); }
    /// into_shared
    fn shared_shared_sl [22] { shared(SHARED_SL); }
    /// into_shared
    fn shared_ext [22] { shared(EXT); }
    /// into_shared
    fn shared_ext_sl [22] { shared(EXT_SL); }
    /// into Vec
    fn vec_borrowed [22] { vec(BORROWED); }
    /// into Vec
    fn vec_chunk [22] { vec(CHUNK); }
    /// into Vec
    fn vec_shared [22] { vec(SHARED); }
    /// into Vec
    fn vec_shared_sl [22] { vec(SHARED_SL); }
    /// into Vec
    fn vec_ext [22] { vec(EXT); }
    /// into Vec
    fn vec_ext_sl [22] { vec(EXT_SL); }
    /// into Cow
    fn cow_borrowed [22] { cow(BORROWED); }
    /// into Cow
    fn cow_chunk [22] { cow(CHUNK); }
    /// into Cow
    fn cow_shared [22] { cow(SHARED); }
    /// into Cow
    fn cow_shared_sl [22] { cow(SHARED_SL); }
    /// into Cow
    fn cow_ext [22] { cow(EXT); }
    /// into Cow
    fn cow_ext_sl [22] { cow(EXT_SL); }
    /// into SharedBytes and back
    fn sb_borrowed [22] { sb(BORROWED); }
    /// into SharedBytes and back
    fn sb_chunk [22] { sb(CHUNK); }
    /// into SharedBytes and back
    fn sb_shared [22] { sb(SHARED); }
    /// into SharedBytes and back
    fn sb_shared_sl [22] { sb(SHARED_SL); }
    /// into SharedBytes and back
    fn sb_ext [22] { sb(EXT); }
    /// into SharedBytes and back
    fn sb_ext_sl [22] { sb(EXT_SL); }

    /// any sub-slice of a static buffer
    fn statics [22] {
        let (a, b) = any_range(20);
        let v = ByteData::from_static(&FIXED[a..b]);
        chk!(holds(&v, &FIXED[a..b]), "from_static");
        let x = v.statically_borrowed();
        chk!(holds(&x, &FIXED[a..b]), "statically_borrowed");
        let bor = x.as_borrowed();
        chk!(match bor { Some(s) => same(s, &FIXED[a..b]), None => true }, "as_borrowed");
        reach!();
    }
    /// static values made shared, cloned and owned
    fn statics_shared [22] {
        lens(17, |n| {
            let v = ByteData::from_static(&FIXED[1..1 + n]);
            let w = v.clone().into_shared();
            chk!(holds_all(&w, &FIXED[1..1 + n]), "into_shared of static");
            let v: Vec<u8> = v.into();
            chk!(same_all(&v, &FIXED[1..1 + n]), "Vec of static");
        });
        let e = ByteData::empty();
        chk!(holds(&e, &[]), "empty");
        let f = ByteData::default();
        chk!(holds(&f, &[]), "default");
        reach!();
    }
    /// inline constructors, all lengths
    fn chunks [22] {
        let d: [u8; 14] = any_bytes();
        let one = ByteData::from_byte(d[0]);
        chk!(holds(&one, &d[..1]), "from_byte");
        let n = any_in(0, 14);
        let c = ByteChunk::from_slice(&d[..n]);
        chk!(c.len() == n && c.is_empty() == (n == 0), "chunk length");
        chk!(same(c.as_slice(), &d[..n]), "chunk content");
        let full = ByteChunk::from_array(&d);
        chk!(same(full.as_slice(), &d), "from_array");
        let b = ByteChunk::from_byte(d[3]);
        chk!(same(b.as_slice(), &d[3..4]), "ByteChunk::from_byte");
        let e = ByteChunk::default();
        chk!(e.is_empty() && e.len() == 0, "default chunk");
        let fc = ByteData::from_chunk(&d);
        chk!(holds(&fc, &d), "from_chunk");
        let a: [u8; 5] = [d[0], d[1], d[2], d[3], d[4]];
        chk!(holds(&ByteData::from_chunk(&a), &a), "from_chunk 5");
        chk!(holds(&ByteData::from_chunk(&[]), &[]), "from_chunk 0");
        reach!();
    }
    /// owned bytes: from_owned and From<Vec>, with spare capacity
    fn owned [22] {
        let d: [u8; 18] = any_bytes();
        lens(17, |n| {
            let mut v = Vec::with_capacity(24);
            v.extend_from_slice(&d[..n]);
            let a = ByteData::from_owned(v);
            chk!(holds_all(&a, &d[..n]), "from_owned");
        });
        lens(17, |n| {
            let b = ByteData::from(d[..n].to_vec());
            chk!(holds_all(&b, &d[..n]), "From<Vec>");
        });
        lens(17, |n| {
            let s = SharedBytes::from(d[..n].to_vec());
            chk!(same_all(s.as_slice(), &d[..n]), "SharedBytes::from(Vec)");
        });
        reach!();
    }
    /// Cow forms
    fn cows [22] {
        let d: [u8; 18] = any_bytes();
        lens(17, |n| {
            let a = ByteData::from_cow(Cow::Borrowed(&d[..n]));
            chk!(holds_all(&a, &d[..n]), "from_cow borrowed");
            let c = ByteData::from_cow_static(Cow::Borrowed(&FIXED[..n]));
            chk!(holds_all(&c, &FIXED[..n]), "from_cow_static borrowed");
            let f = ByteData::from(Cow::Borrowed(&d[..n]));
            chk!(holds_all(&f, &d[..n]), "From<Cow>");
        });
        reach!();
    }
    fn cows_owned [22] {
        let d: [u8; 18] = any_bytes();
        lens(17, |n| {
            let b = ByteData::from_cow(Cow::Owned(d[..n].to_vec()));
            chk!(holds_all(&b, &d[..n]), "from_cow owned");
        });
        lens(17, |n| {
            let e = ByteData::from_cow_static(Cow::Owned(d[..n].to_vec()));
            chk!(holds_all(&e, &d[..n]), "from_cow_static owned");
        });
        reach!();
    }
    /// concatenation of three pieces of 0..=7 bytes each
    fn concat [24] {
        let d: [u8; 21] = any_bytes();
        let (a, b, c) = (any_in(0, 7), any_in(0, 7), any_in(0, 7));
        let v = ByteData::from_concat(&[&d[..a], &d[a..a + b], &d[a + b..a + b + c]]);
        chk!(holds(&v, &d[..a + b + c]), "from_concat");
        reach!();
    }
    /// concatenation where at most one piece is not empty, and of no or one piece
    fn concat_few [24] {
        let d: [u8; 18] = any_bytes();
        let n = any_in(0, 18);
        chk!(holds(&ByteData::from_concat(&[&d[..n]]), &d[..n]), "one piece");
        chk!(holds(&ByteData::from_concat(&[&[], &d[..n], &[]]), &d[..n]), "one non-empty piece");
        chk!(holds(&ByteData::from_concat(&[]), &[]), "no pieces");
        reach!();
    }
    /// collected from an iterator of 0..=17 bytes with exact, absent and wrong-but-legal size hints
    fn collect_exact [20] { collect::<0>(); }
    fn collect_none [20] { collect::<1>(); }
    fn collect_low [20] { collect::<2>(); }
    fn collect_over [20] { collect::<3>(); }
    /// an iterator may promise any upper bound
    fn collect_huge_hint [20] {
        struct It(u8, usize);
        impl Iterator for It {
            type Item = u8;
            fn next(&mut self) -> Option<u8> {
                if self.0 == 0 { return None; }
                self.0 -= 1;
                Some(self.0)
            }
            fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(self.1)) }
        }
        let hint = any_usize();
        assume(hint >= 4 && hint > (1 << 40));
        let v: ByteData<'_> = It(4, hint).collect();
        chk!(same(v.as_slice(), &[3, 2, 1, 0]), "collect");
        reach!();
    }
    /// text conversions from String and Cow<str> of 0..=17 ASCII bytes
    fn strings [22] {
        let d: [u8; 17] = any_bytes();
        let mut i = 0;
        while i < 17 { assume(d[i] < 0x80); i += 1; }
        let n = any_in(0, 17);
        let s = unsafe { core::str::from_utf8_unchecked(&d[..n]) };
        chk!(holds(&ByteData::from(String::from(s)), &d[..n]), "From<String>");
        chk!(holds(&ByteData::from(Cow::Borrowed(s)), &d[..n]), "From<Cow<str>>");
        chk!(holds(&ByteData::from(Cow::<str>::Owned(String::from(s))), &d[..n]), "From<Cow<str>> owned");
        let x = SharedBytes::from(String::from(s));
        chk!(same(x.as_slice(), &d[..n]), "SharedBytes::from(String)");
        reach!();
    }
    /// external payloads of other types: boxed slice, Arc, String, inline array
    fn externals [24] {
        let d: [u8; 18] = any_bytes();
        let mut i = 0;
        while i < 18 { assume(d[i] < 0x80); i += 1; }
        let n = if any_bool() { 18 } else { 14 };
        let b: Box<[u8]> = d[..n].into();
        chk!(holds(&ByteData::from_external(b), &d[..n]), "Box<[u8]>");
        let s = String::from(unsafe { core::str::from_utf8_unchecked(&d[..n]) });
        chk!(holds(&ByteData::from_external(s), &d[..n]), "String");
        reach!();
    }
    fn external_arc [24] {
        let d: [u8; 18] = any_bytes();
        let n = if any_bool() { 18 } else { 14 };
        let b: std::sync::Arc<[u8]> = d[..n].into();
        let v = ByteData::from_external(b.clone());
        chk!(holds(&v, &d[..n]), "Arc<[u8]>");
        core::mem::drop(v);
        chk!(std::sync::Arc::strong_count(&b) == 1, "payload released");
        reach!();
    }
    /// byte access by position and as a slice through the traits
    fn access [22] {
        let d: [u8; 18] = any_bytes();
        let s = SharedBytes::from_slice(&d);
        let i = any_in(0, 17);
        chk!(s[i] == d[i], "SharedBytes index");
        chk!(same(&s, &d), "shared deref");
        let (a, b) = any_range(18);
        chk!(same(&s[a..b], &d[a..b]), "index range");
        chk!(same(&s[a..], &d[a..]), "index from");
        chk!(same(&s[..b], &d[..b]), "index to");
        chk!(same(&s[..], &d[..]), "index full");
        reach!();
    }
    fn access_bd [22] {
        let d: [u8; 18] = any_bytes();
        let k = any_in(0, 2);
        split(k, 2, |k| {
            let v = mk([BORROWED, SHARED, EXT][k], &d, 0, 18);
            let i = any_in(0, 17);
            chk!(v[i] == d[i], "ByteData index");
            chk!(same(&v, &d), "deref");
            chk!(same(v.as_ref(), &d), "as_ref");
            chk!(same(core::borrow::Borrow::<[u8]>::borrow(&v), &d), "borrow");
        });
        reach!();
    }
    fn prefixes [22] {
        let d: [u8; 16] = any_bytes();
        let i = any_in(0, 16);
        let s = SharedBytes::from_slice(&d);
        chk!(s.starts_with(&d[..i]) && s.ends_with(&d[i..]), "shared prefix");
        let v = ByteData::from_borrowed(&d);
        chk!(v.starts_with(&d[..i]) && v.ends_with(&d[i..]), "prefix");
        reach!();
    }
    /// aligned shared buffers of every alignment keep content and alignment
    fn aligned [22] {
        let d: [u8; 9] = any_bytes();
        let n = any_in(1, 9);
        let sh = any_in(0, 9);
        split(sh, 9, |sh| {
            let s = SharedBytes::from_slice_aligned(&d[..n], 1 << sh);
            chk!(same(s.as_slice(), &d[..n]), "aligned content");
            chk!(s.as_slice().as_ptr().align_offset(1 << sh) == 0, "alignment honoured");
        });
        reach!();
    }
}
