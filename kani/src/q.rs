//! Byte queues next to a model of what they must hold.
use crate::sym::*;
use bytedata::*;

/// Chunk `i` of a history is bytes `2 * i ..` of the data, one or two of them.
pub fn clen(i: usize) -> usize {
    1 + (i & 1)
}

/// The chunks a queue must hold: numbers `c[lo..hi]`.
#[derive(Clone, Copy)]
pub struct M {
    pub c: [u8; CAP],
    pub lo: usize,
    pub hi: usize,
    /// number of the next chunk
    pub n: usize,
}

/// Bytes of data to take chunks from.
pub const DATA: usize = 40;
/// Room for the chunk numbers, and how much of it is in front; more of it with nodes of the real size.
#[cfg(bdv_small_nodes)]
const CAP: usize = 22;
#[cfg(not(bdv_small_nodes))]
const CAP: usize = 48;
#[cfg(bdv_small_nodes)]
const MID: usize = 8;
#[cfg(not(bdv_small_nodes))]
const MID: usize = 20;
/// Room for the bytes of a queue in one piece.
#[cfg(bdv_small_nodes)]
pub const FLAT: usize = 16;
#[cfg(not(bdv_small_nodes))]
pub const FLAT: usize = 40;

impl M {
    pub fn new(n: usize) -> M {
        M { c: [0; CAP], lo: MID, hi: MID, n }
    }
    /// Exactly these chunks.
    pub const fn of(c: &[u8]) -> M {
        let mut m = M { c: [0; CAP], lo: 0, hi: c.len(), n: 0 };
        let mut i = 0;
        while i < c.len() {
            m.c[i] = c[i];
            i += 1;
        }
        m
    }
    pub fn back(&mut self) -> usize {
        let i = self.n;
        self.n += 1;
        self.c[self.hi] = i as u8;
        self.hi += 1;
        i
    }
    pub fn front(&mut self) -> usize {
        let i = self.n;
        self.n += 1;
        self.lo -= 1;
        self.c[self.lo] = i as u8;
        i
    }
    pub fn len(&self) -> usize {
        let mut l = 0;
        let mut i = self.lo;
        while i < self.hi {
            l += clen(self.c[i] as usize);
            i += 1;
        }
        l
    }
    /// The bytes, laid out in one piece.
    pub fn flat(&self, d: &[u8], out: &mut [u8]) -> usize {
        let mut at = 0;
        let mut i = self.lo;
        while i < self.hi {
            let c = self.c[i] as usize;
            out[at] = d[2 * c];
            if clen(c) == 2 {
                out[at + 1] = d[2 * c + 1];
            }
            at += clen(c);
            i += 1;
        }
        at
    }
}

/// Bytes of chunk `i`.
#[inline(always)]
pub fn bytes(d: &[u8], i: usize) -> &[u8] {
    &d[2 * i..2 * i + clen(i)]
}

/// How the chunks of a queue are represented.
pub type Mk = for<'a> fn(&'a [u8]) -> ByteData<'a>;
pub fn borrowed(b: &[u8]) -> ByteData<'_> {
    ByteData::from_borrowed(b)
}
pub fn inline(b: &[u8]) -> ByteData<'_> {
    ByteData::from_chunk_slice(b)
}
pub fn shared(b: &[u8]) -> ByteData<'_> {
    ByteData::from_shared(SharedBytes::from_slice(b))
}

/// Carries out one step of a history on both: `b`, `f` push at the back, at the front; `P`, `Q` pop at
/// the front, at the back.
#[inline(always)]
pub fn op<'a>(q: &mut ByteQueue<'a>, m: &mut M, d: &'a [u8], o: u8, mk: Mk) {
    match o {
        b'b' => q.push_back(mk(bytes(d, m.back()))),
        b'f' => q.push_front(mk(bytes(d, m.front()))),
        b'P' => {
            let x = q.pop_front();
            if m.lo == m.hi {
                chk!(x.is_none(), "pop_front of an empty queue");
            } else {
                m.lo += 1;
                let w = m.c[m.lo - 1] as usize;
                match x {
                    Some(x) => chk!(same_all(x.as_slice(), bytes(d, w)), "pop_front"),
                    None => chk!(false, "pop_front"),
                }
            }
        }
        _ => {
            let x = q.pop_back();
            if m.lo == m.hi {
                chk!(x.is_none(), "pop_back of an empty queue");
            } else {
                m.hi -= 1;
                let w = m.c[m.hi] as usize;
                match x {
                    Some(x) => chk!(same_all(x.as_slice(), bytes(d, w)), "pop_back"),
                    None => chk!(false, "pop_back"),
                }
            }
        }
    }
}

/// A queue with the history `h`; chunks are numbered from `n`.
#[inline(always)]
pub fn build<'a>(h: &[u8], d: &'a [u8], n: usize, mk: Mk) -> (ByteQueue<'a>, M) {
    let mut q = ByteQueue::new();
    let mut m = M::new(n);
    let mut i = 0;
    while i < h.len() {
        op(&mut q, &mut m, d, h[i], mk);
        i += 1;
    }
    (q, m)
}

/// What every observer must say about `q`.
#[inline(always)]
pub fn verify(q: &ByteQueue<'_>, m: &M, d: &[u8]) {
    let n = m.hi - m.lo;
    chk!(q.len() == m.len(), "len");
    chk!(q.is_empty() == (n == 0), "is_empty");
    chk!(q.chunk_len() == n, "chunk_len");
    chk!(!q.is_full(), "is_full");
    match q.front() {
        Some(x) => chk!(n != 0 && same_all(x.as_slice(), bytes(d, m.c[m.lo] as usize)), "front"),
        None => chk!(n == 0, "front"),
    }
    match q.back() {
        Some(x) => chk!(n != 0 && same_all(x.as_slice(), bytes(d, m.c[m.hi - 1] as usize)), "back"),
        None => chk!(n == 0, "back"),
    }
    let mut it = q.chunks();
    let mut i = m.lo;
    while i < m.hi {
        chk!(it.len() == m.hi - i, "chunks left");
        match it.next() {
            Some(x) => chk!(same_all(x.as_slice(), bytes(d, m.c[i] as usize)), "chunk"),
            None => chk!(false, "chunks end early"),
        }
        i += 1;
    }
    chk!(it.next().is_none(), "chunks end late");
}

/// The queue's bytes are exactly `want`, and its counts fit.
#[inline(always)]
pub fn is_flat(q: &ByteQueue<'_>, want: &[u8]) {
    chk!(q.len() == want.len(), "len");
    chk!(q.is_empty() == want.is_empty(), "is_empty");
    let mut at = 0;
    let mut n = 0;
    let mut it = q.chunks();
    while at < want.len() {
        match it.next() {
            Some(x) => {
                let x = x.as_slice();
                chk!(!x.is_empty() && x.len() <= want.len() - at && same_all(x, &want[at..at + x.len()]), "bytes");
                at += x.len();
                n += 1;
            }
            None => {
                chk!(false, "ends early");
                return;
            }
        }
    }
    chk!(it.next().is_none(), "ends late");
    chk!(q.chunk_len() == n, "chunk_len");
}

/// Histories whose end states differ in how the chunks sit in the first slot and in the nodes: nodes
/// full, part full from either end, wrapped round, emptied but kept, several in a row.
pub const SHAPES: [&[u8]; 14] = [
    b"", b"b", b"bb", b"bbbb", b"bbbbb", b"bbQ", b"bbPQ", b"bbP", b"fff", b"fffff", b"bbbPPbb", b"bbbbbbPQ",
    b"bbfPP", b"bbbbbfPPQ",
];
