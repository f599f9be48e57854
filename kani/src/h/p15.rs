//! C15: equality, order and hash.
use crate::q::*;
use crate::sym::*;
use crate::t::*;
use crate::util::*;
use bytedata::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};

/// Lexicographic order of bytes.
fn order(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] {
            return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater };
        }
        i += 1;
    }
    if a.len() == b.len() {
        Ordering::Equal
    } else if a.len() < b.len() {
        Ordering::Less
    } else {
        Ordering::Greater
    }
}
/// Records what a hasher is given, call by call.
struct Rec([u8; 80], usize);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0[self.1] = b.len() as u8;
        self.1 += 1;
        let mut i = 0;
        while i < b.len() {
            self.0[self.1] = b[i];
            self.1 += 1;
            i += 1;
        }
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn fed<T: Hash + ?Sized>(t: &T) -> Rec {
    let mut r = Rec([0; 80], 0);
    t.hash(&mut r);
    r
}
fn same_hash(a: &Rec, b: &Rec) -> bool {
    a.1 == b.1 && same(&a.0[..a.1], &b.0[..b.1])
}
fn st(d: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(d) }
}
#[inline(always)]
fn tx(k: u8, d: &[u8]) -> StringData<'_> {
    unsafe { StringData::from_bytedata_unchecked(mk(k, d, 0, d.len())) }
}
macro_rules! eq {
    ($x:expr, $y:expr, $e:expr, $m:literal) => {
        chk!(($x == $y) == $e && ($x != $y) == !$e, $m);
    };
}
macro_rules! ord {
    ($x:expr, $y:expr, $o:expr, $m:literal) => {
        chk!(pc(&$x, $y) == Some($o), $m);
    };
}
fn pc<A: PartialOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> Option<Ordering> {
    a.partial_cmp(b)
}
fn tc<A: Ord + ?Sized>(a: &A, b: &A) -> Ordering {
    a.cmp(b)
}
/// Two byte strings of the given lengths (with one byte in front and behind, so that offsets matter)
#[inline(always)]
fn two<F: FnOnce(&[u8; 5], &[u8; 5])>(f: F) {
    let a: [u8; 5] = any_bytes();
    let b: [u8; 5] = any_bytes();
    f(&a, &b);
    reach!();
}
/// every pair of lengths from 0 to `max`, concrete on each path
#[inline(always)]
fn sizes<F: FnMut(usize, usize)>(max: usize, mut f: F) {
    let n = any_in(0, max);
    let m = any_in(0, max);
    let mut i = 0;
    while i <= max {
        let mut j = 0;
        while j <= max {
            if n == i && m == j {
                f(i, j);
                return;
            }
            j += 1;
        }
        i += 1;
    }
}
/// byte values against each other
#[inline(always)]
fn data(k: u8, l: u8, max: usize) {
    two(|a, b| {
        sizes(max, |n, m| {
            let (a, b) = (&a[1..1 + n], &b[..m]);
            let (e, o) = (same_all(a, b), order(a, b));
            let x = mk(k, a, 0, n);
            let y = mk(l, b, 0, m);
            eq!(x, y, e, "ByteData == ByteData");
            eq!(y, x, e, "ByteData == ByteData, turned round");
            ord!(x, &y, o, "ByteData <=> ByteData");
            chk!(tc(&x, &y) == o && tc(&y, &x) == o.reverse(), "order of ByteData");
            chk!(x.eq_const(&y) == e && x.eq_slice(b) == e, "eq_const, eq_slice");
            if e {
                chk!(same_hash(&fed(&x), &fed(&y)), "hash of equal ByteData");
                chk!(same_hash(&fed(&x), &fed(b)), "hash of ByteData and of the slice it borrows as");
            }
        })
    });
}
/// a queue with the bytes `d` in chunks cut at `c`
#[inline(always)]
fn qu<'a>(d: &'a [u8], c: &[usize]) -> ByteQueue<'a> {
    let mut q = ByteQueue::new();
    let mut from = 0;
    let mut i = 0;
    while i < c.len() {
        if c[i] < d.len() {
            q.push_back(ByteData::from_borrowed(&d[from..c[i]]));
            from = c[i];
        }
        i += 1;
    }
    if from < d.len() {
        q.push_back(ByteData::from_borrowed(&d[from..]));
    }
    q
}
#[inline(always)]
fn queues(c: &[usize], f: &[usize], n: usize, m: usize) {
    two(|a, b| {
        let (a, b) = (&a[..n], &b[..m]);
        let (e, o) = (same_all(a, b), order(a, b));
        let x = qu(a, c);
        let y = qu(b, f);
        eq!(x, y, e, "ByteQueue == ByteQueue");
        chk!(tc(&x, &y) == o && pc(&x, &y) == Some(o), "ByteQueue <=> ByteQueue");
        chk!(tc(&y, &x) == o.reverse(), "ByteQueue <=> ByteQueue, turned round");
        if e {
            chk!(same_hash(&fed(&x), &fed(&y)), "hash of equal queues");
        }
    });
}
#[inline(always)]
fn queue_slice(c: &[usize], n: usize, m: usize) {
    two(|a, b| {
        let (a, b) = (&a[..n], &b[..m]);
        let (e, o) = (same_all(a, b), order(a, b));
        let x = qu(a, c);
        eq!(x, *b, e, "ByteQueue == [u8]");
        eq!(*b, x, e, "[u8] == ByteQueue");
        ord!(x, b, o, "ByteQueue <=> [u8]");
        chk!(<[u8] as PartialOrd<ByteQueue<'_>>>::partial_cmp(b, &x) == Some(o.reverse()), "[u8] <=> ByteQueue");
    });
}

harnesses! {
    /// byte values of any representations, lengths 0 to 3: ==, order, hash
    fn data_borrowed [12] { data(BORROWED, BORROWED, 2); }
    fn data_3 [12] {
        two(|a, b| {
            let (a, b) = (&a[1..4], &b[..3]);
            let x = mk(CHUNK, a, 0, 3);
            let y = mk(BORROWED, b, 0, 3);
            eq!(x, y, same_all(a, b), "ByteData == ByteData");
            chk!(tc(&x, &y) == order(a, b), "order of ByteData");
        });
    }
    fn data_mixed [12] { data(BORROWED, CHUNK, 2); }
    fn data_shared [12] {
        two(|a, b| {
            let (a, b) = (&a[1..4], &b[..3]);
            let (e, o) = (same_all(a, b), order(a, b));
            let x = mk(SHARED_SL, a, 0, 3);
            let y = mk(CHUNK, b, 0, 3);
            eq!(x, y, e, "ByteData == ByteData");
            ord!(x, &y, o, "ByteData <=> ByteData");
            if e {
                chk!(same_hash(&fed(&x), &fed(&y)), "hash of equal ByteData");
            }
        });
    }
    /// longer than the inline limit: shared and external values of 17 bytes
    fn data_long [22] {
        let a: [u8; 18] = any_bytes();
        let b: [u8; 18] = any_bytes();
        let x = mk(SHARED, &a, 0, 17);
        let y = mk(EXT, &b, 1, 18);
        let (e, o) = (same_all(&a[..17], &b[1..]), order(&a[..17], &b[1..]));
        eq!(x, y, e, "ByteData == ByteData");
        chk!(tc(&x, &y) == o, "ByteData <=> ByteData");
        reach!();
    }
    fn shared_long [22] {
        let a: [u8; 20] = any_bytes();
        let b: [u8; 20] = any_bytes();
        let x = SharedBytes::from_slice(&a).into_sliced(1, 17);
        let y = SharedBytes::from_slice(&b[..17]);
        let (e, o) = (same_all(&a[1..18], &b[..17]), order(&a[1..18], &b[..17]));
        eq!(x, y, e, "SharedBytes == SharedBytes");
        chk!(tc(&x, &y) == o, "SharedBytes <=> SharedBytes");
        if e {
            chk!(same_hash(&fed(&x), &fed(&y)), "hash of equal shared buffers");
        }
        reach!();
    }
    /// byte values against slices, vectors and texts
    fn data_slice [12] {
        two(|a, b| sizes(2, |n, m| {
            let (a, b) = (&a[1..1 + n], &b[..m]);
            let (e, o) = (same_all(a, b), order(a, b));
            let x = mk(CHUNK, a, 0, n);
            eq!(x, *b, e, "ByteData == [u8]");
            eq!(x, b, e, "ByteData == &[u8]");
            eq!(*b, x, e, "[u8] == ByteData");
            eq!(b, x, e, "&[u8] == ByteData");
            ord!(x, b, o, "ByteData <=> [u8]");
            chk!(<[u8] as PartialOrd<ByteData<'_>>>::partial_cmp(b, &x) == Some(o.reverse()), "[u8] <=> ByteData");
        }));
    }
    fn data_vec [12] {
        two(|a, b| sizes(2, |n, m| {
            let (a, b) = (&a[1..1 + n], &b[..m]);
            let (e, o) = (same_all(a, b), order(a, b));
            let x = mk(BORROWED, a, 0, n);
            let v = b.to_vec();
            eq!(x, v, e, "ByteData == Vec");
            eq!(v, x, e, "Vec == ByteData");
            ord!(x, &v, o, "ByteData <=> Vec");
            chk!(<Vec<u8> as PartialOrd<ByteData<'_>>>::partial_cmp(&v, &x) == Some(o.reverse()), "Vec <=> ByteData");
        }));
    }
    /// texts against texts, byte values, str, slices, String, Vec
    fn text_text [12] {
        two(|a, b| sizes(2, |n, m| {
            let (a, b) = (&a[..n], &b[..m]);
            assume(wf_all(a) && wf_all(b));
            let (e, o) = (same_all(a, b), order(a, b));
            let x = tx(BORROWED, a);
            let y = tx(CHUNK, b);
            eq!(x, y, e, "StringData == StringData");
            chk!(tc(&x, &y) == o && pc(&x, &y) == Some(o) && tc(&y, &x) == o.reverse(), "StringData <=> StringData");
            chk!(x.eq_const(&y) == e && x.eq_str(st(b)) == e && x.eq_slice(b) == e, "eq_const, eq_str, eq_slice");
            if e {
                chk!(same_hash(&fed(&x), &fed(&y)), "hash of equal texts");
                chk!(same_hash(&fed(&x), &fed(st(b))), "hash of a text and of the str it borrows as");
            }
        }));
    }
    fn text_data [12] {
        two(|a, b| sizes(2, |n, m| {
            let (a, b) = (&a[..n], &b[..m]);
            assume(wf_all(a));
            let (e, o) = (same_all(a, b), order(a, b));
            let x = tx(BORROWED, a);
            let y = mk(CHUNK, b, 0, m);
            eq!(x, y, e, "StringData == ByteData");
            eq!(y, x, e, "ByteData == StringData");
            ord!(x, &y, o, "StringData <=> ByteData");
            ord!(y, &x, o.reverse(), "ByteData <=> StringData");
            eq!(x, *b, e, "StringData == [u8]");
            eq!(x, b, e, "StringData == &[u8]");
            eq!(*b, x, e, "[u8] == StringData");
            eq!(b, x, e, "&[u8] == StringData");
            ord!(x, b, o, "StringData <=> [u8]");
            chk!(<[u8] as PartialOrd<StringData<'_>>>::partial_cmp(b, &x) == Some(o.reverse()), "[u8] <=> StringData");
        }));
    }
    fn text_str [12] {
        two(|a, b| sizes(2, |n, m| {
            let (a, b) = (&a[..n], &b[..m]);
            assume(wf_all(a) && wf_all(b));
            let (e, o) = (same_all(a, b), order(a, b));
            let x = tx(CHUNK, a);
            let b = st(b);
            eq!(x, *b, e, "StringData == str");
            eq!(x, b, e, "StringData == &str");
            eq!(*b, x, e, "str == StringData");
            eq!(b, x, e, "&str == StringData");
            ord!(x, b, o, "StringData <=> str");
            chk!(<str as PartialOrd<StringData<'_>>>::partial_cmp(b, &x) == Some(o.reverse()), "str <=> StringData");
        }));
    }
    fn text_owned [12] {
        two(|a, b| sizes(2, |n, m| {
            let (a, b) = (&a[..n], &b[..m]);
            assume(wf_all(a) && wf_all(b));
            let (e, o) = (same_all(a, b), order(a, b));
            let x = tx(CHUNK, a);
            let s = String::from(st(b));
            eq!(x, s, e, "StringData == String");
            eq!(s, x, e, "String == StringData");
            ord!(x, &s, o, "StringData <=> String");
            chk!(<String as PartialOrd<StringData<'_>>>::partial_cmp(&s, &x) == Some(o.reverse()), "String <=> StringData");
            let v = s.into_bytes();
            eq!(x, v, e, "StringData == Vec");
            eq!(v, x, e, "Vec == StringData");
            ord!(x, &v, o, "StringData <=> Vec");
            chk!(<Vec<u8> as PartialOrd<StringData<'_>>>::partial_cmp(&v, &x) == Some(o.reverse()), "Vec <=> StringData");
        }));
    }
    /// shared buffers against each other, slices and vectors
    fn shared_shared [12] {
        two(|a, b| sizes(2, |n, m| {
            let x = SharedBytes::from_slice(a).into_sliced(1, n);
            let y = SharedBytes::from_slice(&b[..m]);
            let (a, b) = (&a[1..1 + n], &b[..m]);
            let (e, o) = (same_all(a, b), order(a, b));
            eq!(x, y, e, "SharedBytes == SharedBytes");
            chk!(tc(&x, &y) == o && pc(&x, &y) == Some(o) && tc(&y, &x) == o.reverse(), "SharedBytes <=> SharedBytes");
            if e {
                chk!(same_hash(&fed(&x), &fed(&y)), "hash of equal shared buffers");
                chk!(same_hash(&fed(&x), &fed(&mk(CHUNK, b, 0, m))), "hash of a shared buffer and an equal byte value");
            }
        }));
    }
    fn shared_slice [12] {
        two(|a, b| sizes(2, |n, m| {
            let (a, b) = (&a[..n], &b[..m]);
            let x = SharedBytes::from_slice(a);
            let (e, o) = (same_all(a, b), order(a, b));
            eq!(x, *b, e, "SharedBytes == [u8]");
            eq!(x, b, e, "SharedBytes == &[u8]");
            eq!(*b, x, e, "[u8] == SharedBytes");
            ord!(x, b, o, "SharedBytes <=> [u8]");
            ord!(x, &b, o, "SharedBytes <=> &[u8]");
            chk!(<[u8] as PartialOrd<SharedBytes>>::partial_cmp(b, &x) == Some(o.reverse()), "[u8] <=> SharedBytes");
            let v = b.to_vec();
            eq!(x, v, e, "SharedBytes == Vec");
            eq!(v, x, e, "Vec == SharedBytes");
            ord!(x, &v, o, "SharedBytes <=> Vec");
            chk!(<Vec<u8> as PartialOrd<SharedBytes>>::partial_cmp(&v, &x) == Some(o.reverse()), "Vec <=> SharedBytes");
        }));
    }
    /// queues of the same or other bytes in other chunks
    fn queue_44_a [14] { queues(&[1, 3], &[2], 4, 4); }
    fn queue_44_b [14] { queues(&[2], &[2], 4, 4); }
    fn queue_44_c [14] { queues(&[], &[1, 2, 3], 4, 4); }
    fn queue_34 [14] { queues(&[1], &[2, 3], 3, 4); }
    fn queue_43 [14] { queues(&[3], &[2], 4, 3); }
    fn queue_23 [14] { queues(&[1], &[1, 2], 2, 3); }
    fn queue_0 [14] { queues(&[], &[], 0, 0); queues(&[], &[1], 0, 2); queues(&[1], &[], 2, 0); }
    /// queues of several nodes, as left by longer histories, against other cuts of the same number of bytes
    fn queue_nodes [14] {
        let d: [u8; DATA] = any_bytes();
        let b: [u8; FLAT] = any_bytes();
        let mut flat = [0; FLAT];
        let (q, m) = build(b"bbbbbb", &d, 0, borrowed);
        let n = m.flat(&d, &mut flat);
        let (a, b) = (&flat[..n], &b[..n]);
        let y = qu(b, &[2, 6]);
        let (e, o) = (same_all(a, b), order(a, b));
        eq!(q, y, e, "ByteQueue == ByteQueue");
        chk!(tc(&q, &y) == o, "ByteQueue <=> ByteQueue");
        eq!(q, *b, e, "ByteQueue == [u8]");
        if e {
            chk!(same_hash(&fed(&q), &fed(&y)), "hash of equal queues");
        }
        reach!();
    }
    /// queues against slices
    fn queue_slice_44 [14] { queue_slice(&[1, 3], 4, 4); }
    fn queue_slice_34 [14] { queue_slice(&[2], 3, 4); }
    fn queue_slice_43 [14] { queue_slice(&[1, 3], 4, 3); }
    fn queue_slice_0 [14] { queue_slice(&[], 0, 0); queue_slice(&[], 0, 2); queue_slice(&[1], 2, 0); }
    /// queues against everything else they compare with
    fn queue_others [14] {
        two(|a, b| {
            let (a, b) = (&a[..3], &b[..3]);
            assume(wf_all(b));
            let (e, o) = (same_all(a, b), order(a, b));
            let x = qu(a, &[2]);
            let y = mk(CHUNK, b, 0, 3);
            eq!(x, y, e, "ByteQueue == ByteData");
            eq!(y, x, e, "ByteData == ByteQueue");
            let y = tx(BORROWED, b);
            eq!(x, y, e, "ByteQueue == StringData");
            eq!(y, x, e, "StringData == ByteQueue");
            eq!(x, b, e, "ByteQueue == &[u8]");
            eq!(b, x, e, "&[u8] == ByteQueue");
        });
    }
    fn queue_str [14] {
        two(|a, b| {
            let (a, b) = (&a[..3], &b[..3]);
            assume(wf_all(b));
            let (e, o) = (same_all(a, b), order(a, b));
            let x = qu(a, &[1]);
            let s = st(b);
            eq!(x, *s, e, "ByteQueue == str");
            eq!(*s, x, e, "str == ByteQueue");
            eq!(x, s, e, "ByteQueue == &str");
            eq!(s, x, e, "&str == ByteQueue");
            let v = b.to_vec();
            eq!(x, v, e, "ByteQueue == Vec");
            eq!(v, x, e, "Vec == ByteQueue");
            ord!(x, &v, o, "ByteQueue <=> Vec");
            chk!(<Vec<u8> as PartialOrd<ByteQueue<'_>>>::partial_cmp(&v, &x) == Some(o.reverse()), "Vec <=> ByteQueue");
        });
    }
    /// text queues against everything they compare with
    fn tq_queue [14] {
        let mut a: [u8; 5] = any_bytes();
        let mut b: [u8; 5] = any_bytes();
        let n = fill(&[&[0xC3], &[b'a']], &mut a);
        let m = fill(&[&[0xC3, b'a']], &mut b);
        let (a, b) = (&a[..n], &b[..m]);
        let (e, o) = (same_all(a, b), order(a, b));
        let x = queue(a, &[&[0xC3], &[b'a']]);
        let y = queue(b, &[&[0xC3, b'a']]);
        eq!(x, y, e, "StringQueue == StringQueue");
        chk!(tc(&x, &y) == o && pc(&x, &y) == Some(o), "StringQueue <=> StringQueue");
        let z = y.as_bytequeue();
        eq!(x, *z, e, "StringQueue == ByteQueue");
        eq!(*z, x, e, "ByteQueue == StringQueue");
        ord!(x, z, o, "StringQueue <=> ByteQueue");
        ord!(*z, &x, o.reverse(), "ByteQueue <=> StringQueue");
        reach!();
    }
    fn tq_str [14] {
        let mut a: [u8; 5] = any_bytes();
        let mut b: [u8; 5] = any_bytes();
        let n = fill(&[&[0xC3], &[b'a']], &mut a);
        let m = fill(&[&[0xC3, b'a']], &mut b);
        let (a, b) = (&a[..n], &b[..m]);
        let (e, o) = (same_all(a, b), order(a, b));
        let x = queue(a, &[&[0xC3], &[b'a']]);
        let s = st(b);
        eq!(x, *s, e, "StringQueue == str");
        eq!(x, s, e, "StringQueue == &str");
        eq!(*s, x, e, "str == StringQueue");
        eq!(s, x, e, "&str == StringQueue");
        ord!(x, s, o, "StringQueue <=> str");
        ord!(x, &s, o, "StringQueue <=> &str");
        chk!(<str as PartialOrd<StringQueue<'_>>>::partial_cmp(s, &x) == Some(o.reverse()), "str <=> StringQueue");
        reach!();
    }
    fn tq_slice [14] {
        let mut a: [u8; 5] = any_bytes();
        let b: [u8; 5] = any_bytes();
        let n = fill(&[&[0xC3], &[b'a']], &mut a);
        let (a, b) = (&a[..n], &b[..3]);
        let (e, o) = (same_all(a, b), order(a, b));
        let x = queue(a, &[&[0xC3], &[b'a']]);
        eq!(x, *b, e, "StringQueue == [u8]");
        eq!(x, b, e, "StringQueue == &[u8]");
        eq!(*b, x, e, "[u8] == StringQueue");
        eq!(b, x, e, "&[u8] == StringQueue");
        ord!(x, b, o, "StringQueue <=> [u8]");
        ord!(x, &b, o, "StringQueue <=> &[u8]");
        chk!(<[u8] as PartialOrd<StringQueue<'_>>>::partial_cmp(b, &x) == Some(o.reverse()), "[u8] <=> StringQueue");
        reach!();
    }
    fn tq_data [14] {
        let mut a: [u8; 5] = any_bytes();
        let mut b: [u8; 5] = any_bytes();
        let n = fill(&[&[0xC3], &[b'a']], &mut a);
        let m = fill(&[&[0xC3, b'a']], &mut b);
        let (a, b) = (&a[..n], &b[..m]);
        let (e, o) = (same_all(a, b), order(a, b));
        let x = queue(a, &[&[0xC3], &[b'a']]);
        let y = tx(CHUNK, b);
        eq!(x, y, e, "StringQueue == StringData");
        eq!(y, x, e, "StringData == StringQueue");
        ord!(x, &y, o, "StringQueue <=> StringData");
        ord!(y, &x, o.reverse(), "StringData <=> StringQueue");
        let y = mk(BORROWED, b, 0, m);
        eq!(x, y, e, "StringQueue == ByteData");
        eq!(y, x, e, "ByteData == StringQueue");
        ord!(x, &y, o, "StringQueue <=> ByteData");
        ord!(y, &x, o.reverse(), "ByteData <=> StringQueue");
        reach!();
    }
}
