//! C21: renderings of bytes.
use crate::q::*;
use crate::sym::*;
use crate::t::*;
use crate::util::*;
use bytedata::*;
use core::fmt::{self, Write};

/// Reads back what it is given, character by character: a byte string literal, the inside of one, or
/// hexadecimal digits after some zeros.
struct Dec<'a> {
    /// what it must denote
    d: &'a [u8],
    /// how much of it was denoted
    i: usize,
    st: St,
    acc: u8,
    ok: bool,
    /// zeros to come in front of the digits
    pad: usize,
    upper: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum St {
    Prefix,
    Open,
    Inside,
    Escape,
    High,
    Low,
    Closed,
    Digits,
    Digit2,
    Raw,
}
impl<'a> Dec<'a> {
    fn new(st: St, d: &'a [u8]) -> Self {
        Dec { d, i: 0, st, acc: 0, ok: true, pad: 0, upper: false }
    }
    /// one more byte
    fn is(&mut self, b: u8) {
        self.ok &= self.i < self.d.len() && self.d[self.i] == b;
        self.i += 1;
        if self.st != St::Raw {
            self.st = St::Inside;
        }
    }
    fn digit(&mut self, c: u8) -> u8 {
        match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' if self.st != St::Digits && self.st != St::Digit2 || !self.upper => c - b'a' + 10,
            b'A'..=b'F' if self.st != St::Digits && self.st != St::Digit2 || self.upper => c - b'A' + 10,
            _ => {
                self.ok = false;
                0
            }
        }
    }
    fn chr(&mut self, c: u8) {
        // (the renderings of bytes are ASCII)
        self.ok &= c < 0x80 || self.st == St::Raw;
        match self.st {
            St::Prefix => {
                self.ok &= c == b'b';
                self.st = St::Open;
            }
            St::Open => {
                self.ok &= c == b'"';
                self.st = St::Inside;
            }
            St::Inside => match c {
                b'\\' => self.st = St::Escape,
                b'"' => self.st = St::Closed,
                0x20..=0x7E => self.is(c),
                _ => self.ok = false,
            },
            St::Escape => match c {
                b'n' => self.is(b'\n'),
                b'r' => self.is(b'\r'),
                b't' => self.is(b'\t'),
                b'0' => self.is(0),
                b'\\' | b'"' | b'\'' => self.is(c),
                b'x' => self.st = St::High,
                _ => self.ok = false,
            },
            St::High => {
                self.acc = self.digit(c);
                self.st = St::Low;
            }
            St::Low => {
                let l = self.digit(c);
                self.is(self.acc * 16 + l);
            }
            St::Closed => self.ok = false,
            St::Digits => {
                if self.pad > 0 {
                    self.pad -= 1;
                    self.ok &= c == b'0';
                } else {
                    self.acc = self.digit(c);
                    self.st = St::Digit2;
                }
            }
            St::Digit2 => {
                let l = self.digit(c);
                self.is(self.acc * 16 + l);
                self.st = St::Digits;
            }
            St::Raw => self.is(c),
        }
    }
    /// it ended here
    fn done(&self, st: St) -> bool {
        self.ok && self.i == self.d.len() && self.pad == 0 && self.st == st
    }
}
impl Write for Dec<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let s = s.as_bytes();
        // (longer pieces do not come up for so few bytes)
        assume(s.len() <= 8);
        let mut i = 0;
        while i < s.len() && i < 8 {
            self.chr(s[i]);
            i += 1;
        }
        Ok(())
    }
}

macro_rules! debug {
    ($v:expr, $d:expr) => {{
        let v = $v;
        let mut o = Dec::new(St::Prefix, $d);
        chk!(write!(o, "{:?}", v).is_ok() && o.done(St::Closed), "debug output does not denote the bytes");
    }};
}
macro_rules! shown {
    ($v:expr, $d:expr) => {{
        let v = $v;
        let mut o = Dec::new(St::Inside, $d);
        chk!(write!(o, "{}", v).is_ok() && o.done(St::Inside), "escaped output does not denote the bytes");
    }};
}
macro_rules! hex {
    ($v:expr, $d:expr) => {{
        let v = $v;
        let mut o = Dec::new(St::Digits, $d);
        o.upper = any_bool();
        let r = if o.upper { write!(o, "{:X}", v) } else { write!(o, "{:x}", v) };
        chk!(r.is_ok() && o.done(St::Digits), "hexadecimal output is not the digits of the bytes");
    }};
}
macro_rules! wide {
    ($v:expr, $d:expr) => {{
        let v = $v;
        let w = any_in(0, 6);
        let mut o = Dec::new(St::Digits, $d);
        o.pad = if w > 2 * $d.len() { w - 2 * $d.len() } else { 0 };
        o.upper = any_bool();
        let r = if o.upper { write!(o, "{:w$X}", v) } else { write!(o, "{:w$x}", v) };
        chk!(r.is_ok() && o.done(St::Digits), "hexadecimal output with a width is not the digits of the bytes after zeros");
    }};
}
macro_rules! says {
    ($v:expr, $d:expr) => {{
        let v = $v;
        let mut o = Dec::new(St::Raw, $d);
        chk!(write!(o, "{}", v).is_ok() && o.done(St::Raw), "displayed text");
    }};
}
macro_rules! queue_of {
    ($h:expr, $d:ident, $q:ident, $w:ident) => {
        let $d: [u8; DATA] = any_bytes();
        let ($q, m) = build($h, &$d, 0, borrowed);
        let mut flat = [0; FLAT];
        let n = m.flat(&$d, &mut flat);
        let $w = &flat[..n];
    };
}

harnesses! {
    /// Debug of byte values of every representation: a byte string literal denoting the bytes
    fn dbg_borrowed [10] { let d: [u8; 2] = any_bytes(); debug!(mk(BORROWED, &d, 0, 2), &d); reach!(); }
    fn dbg_chunk [10] { let d: [u8; 2] = any_bytes(); debug!(mk(CHUNK, &d, 0, 2), &d); reach!(); }
    fn dbg_shared [10] { let d: [u8; 2] = any_bytes(); debug!(mk(SHARED, &d, 0, 2), &d); reach!(); }
    fn th_dbg_shared_sl [10] { let d: [u8; 4] = any_bytes(); debug!(mk(SHARED_SL, &d, 1, 3), &d[1..3]); reach!(); }
    fn dbg_empty [10] { debug!(ByteData::empty(), &[]); debug!(ByteStringRender::from_slice(&[]), &[]); debug!(ByteQueue::new(), &[]); reach!(); }
    fn dbg_bytechunk [10] { let d: [u8; 2] = any_bytes(); debug!(ByteChunk::from_slice(&d), &d); reach!(); }
    fn dbg_render [10] { let d: [u8; 2] = any_bytes(); debug!(ByteStringRender::from_slice(&d), &d); debug!(ByteStringRender::from_ref(&d), &d); reach!(); }
    /// Display of the renderers: the inside of a byte string literal denoting the bytes
    fn esc_render [10] { let d: [u8; 2] = any_bytes(); shown!(ByteStringRender::from_slice(&d), &d); shown!(ByteStringRender::from(&d[..]), &d); reach!(); }
    fn esc_text [10] { let mut d: [u8; 4] = any_bytes(); let n = leads(&[ASC, 0xC3], &mut d); let s = text(&d[..n]); shown!(ByteStringRender::from_str(s), &d[..n]); reach!(); }
    fn esc_multi [10] { let d: [u8; 3] = any_bytes(); let p = [&d[..1], &d[1..1], &d[1..]]; shown!(MultiByteStringRender::new(&p), &d); reach!(); }
    fn dbg_multi [10] { let d: [u8; 3] = any_bytes(); let p = [&d[..2], &d[2..]]; debug!(MultiByteStringRender::new(&p), &d); reach!(); }
    /// Debug of queues
    fn dbg_queue [10] { queue_of!(b"bb", d, q, w); debug!(q, w); reach!(); }
    fn th_dbg_queue3 [10] { queue_of!(b"bfb", d, q, w); debug!(q, w); reach!(); }
    fn th_dbg_render4 [10] { let d: [u8; 4] = any_bytes(); debug!(ByteStringRender::from_slice(&d), &d); reach!(); }
    fn th_dbg_chunk3 [10] { let d: [u8; 3] = any_bytes(); debug!(mk(CHUNK, &d, 0, 3), &d); reach!(); }
    fn dbg_queue_front [10] { queue_of!(b"fb", d, q, w); debug!(q, w); reach!(); }
    /// lower and upper hexadecimal of every representation
    fn hex_borrowed [10] { let d: [u8; 3] = any_bytes(); hex!(mk(BORROWED, &d, 0, 3), &d); reach!(); }
    fn hex_chunk [10] { let d: [u8; 3] = any_bytes(); hex!(mk(CHUNK, &d, 0, 3), &d); reach!(); }
    fn th_hex_shared [10] { let d: [u8; 4] = any_bytes(); hex!(mk(SHARED_SL, &d, 1, 3), &d[1..3]); reach!(); }
    fn hex_sharedbytes [10] { let d: [u8; 4] = any_bytes(); hex!(SharedBytes::from_slice(&d).into_sliced(1, 2), &d[1..3]); reach!(); }
    fn hex_builder [10] { let d: [u8; 2] = any_bytes(); let mut b = SharedBytesBuilder::with_capacity(8); b.extend_from_slice(&d); hex!(b, &d); reach!(); }
    fn hex_render [10] { let d: [u8; 2] = any_bytes(); hex!(ByteStringRender::from_slice(&d), &d); reach!(); }
    fn hex_queue [10] { queue_of!(b"bb", d, q, w); hex!(q, w); reach!(); }
    fn th_hex_queue_front [10] { queue_of!(b"bfb", d, q, w); hex!(q, w); reach!(); }
    /// and with any width up to 8: zeros in front
    fn wide_data [10] { let d: [u8; 2] = any_bytes(); wide!(mk(BORROWED, &d, 0, 2), &d); reach!(); }
    fn wide_render [10] { let d: [u8; 2] = any_bytes(); wide!(ByteStringRender::from_slice(&d), &d); reach!(); }
    fn wide_queue [10] { queue_of!(b"bb", d, q, w); wide!(q, w); reach!(); }
    /// Display of texts: the text
    fn show_text [10] { let mut d: [u8; 8] = any_bytes(); let n = leads(&[ASC, 0xC3, 0xE2], &mut d); let v = StringData::from_borrowed(text(&d[..n])); says!(v, &d[..n]); reach!(); }
    fn show_squeue [10] { const P: [&[u8]; 3] = [&[ASC], &[0xC3], &[0xE2]]; let mut d: [u8; 8] = any_bytes(); let n = fill(&P, &mut d); let v = queue(&d, &P); says!(v, &d[..n]); reach!(); }
    fn show_builder [10] { let mut d: [u8; 4] = any_bytes(); let n = leads(&[ASC, 0xC3], &mut d); let mut b = SharedStrBuilder::new(); b.push_str(text(&d[..n])); says!(b, &d[..n]); reach!(); }
}
