//! C22: values written to and read back from the serde data model.
use crate::sym::*;
use crate::t::*;
use crate::util::*;
use bytedata::*;
use core::fmt;
use serde_1 as serde;
use serde::de::{Deserialize, DeserializeSeed, SeqAccess, Visitor};
use serde::ser::{Impossible, Serialize};

/// An error without a message.
#[derive(Debug)]
struct No;
impl fmt::Display for No {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for No {}
impl serde::de::Error for No {
    fn custom<T: fmt::Display>(_: T) -> No {
        No
    }
}
impl serde::ser::Error for No {
    fn custom<T: fmt::Display>(_: T) -> No {
        No
    }
}

/// Keeps the bytes or the text that it is given, and which of the two it was.
struct Keep<'a>(&'a mut [u8]);
/// (is text, length)
type Kept = (bool, usize);
impl Keep<'_> {
    fn keep(self, text: bool, b: &[u8]) -> Result<Kept, No> {
        cp(self.0, b);
        Ok((text, b.len()))
    }
}
fn cp(o: &mut [u8], b: &[u8]) {
    let mut i = 0;
    while i < b.len() {
        o[i] = b[i];
        i += 1;
    }
}
macro_rules! nos {
    ($($f:ident $t:ty;)*) => {$(fn $f(self, _: $t) -> Result<Kept, No> { Err(No) })*};
}
impl serde::Serializer for Keep<'_> {
    type Ok = Kept;
    type Error = No;
    type SerializeSeq = Impossible<Kept, No>;
    type SerializeTuple = Impossible<Kept, No>;
    type SerializeTupleStruct = Impossible<Kept, No>;
    type SerializeTupleVariant = Impossible<Kept, No>;
    type SerializeMap = Impossible<Kept, No>;
    type SerializeStruct = Impossible<Kept, No>;
    type SerializeStructVariant = Impossible<Kept, No>;
    nos! { serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_f32 f32; serialize_f64 f64; serialize_char char; serialize_unit_struct &'static str; }
    fn serialize_str(self, v: &str) -> Result<Kept, No> {
        self.keep(true, v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Kept, No> {
        self.keep(false, v)
    }
    fn serialize_none(self) -> Result<Kept, No> {
        Err(No)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Kept, No> {
        Err(No)
    }
    fn serialize_unit(self) -> Result<Kept, No> {
        Err(No)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Kept, No> {
        Err(No)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Kept, No> {
        Err(No)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Kept, No> {
        Err(No)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, No> {
        Err(No)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, No> {
        Err(No)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, No> {
        Err(No)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, No> {
        Err(No)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, No> {
        Err(No)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, No> {
        Err(No)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, No> {
        Err(No)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

/// What a deserializer presents, whatever it is asked for.
#[derive(Clone, Copy)]
enum Form {
    Borrowed,
    Transient,
    Owned,
    BorrowedText,
    TransientText,
    OwnedText,
    Null,
    Unit,
    Num(u64),
    Flag(bool),
    Seq,
}
use Form::*;
#[derive(Clone, Copy)]
struct De<'de> {
    form: Form,
    d: &'de [u8],
    /// presented as what an optional value contains
    some: bool,
    /// how many items follow in a sequence
    items: usize,
}
fn st(d: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(d) }
}
impl<'de> serde::Deserializer<'de> for De<'de> {
    type Error = No;
    fn deserialize_any<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, No> {
        if self.some {
            self.some = false;
            return v.visit_some(self);
        }
        match self.form {
            Borrowed => v.visit_borrowed_bytes(self.d),
            BorrowedText => v.visit_borrowed_str(st(self.d)),
            Owned => v.visit_byte_buf(self.d.to_vec()),
            OwnedText => v.visit_string(st(self.d).to_owned()),
            Transient | TransientText => {
                let mut b = [0; 20];
                cp(&mut b, self.d);
                let r = if let Transient = self.form { v.visit_bytes(&b[..self.d.len()]) } else { v.visit_str(st(&b[..self.d.len()])) };
                // the input is gone
                core::hint::black_box(&mut b)[0] ^= 0xFF;
                r
            }
            Null => v.visit_none(),
            Unit => v.visit_unit(),
            Num(n) => v.visit_u64(n),
            Flag(b) => v.visit_bool(b),
            Seq => v.visit_seq(Items(self)),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// The data, one byte (or character) to an item, as items of the form given in `items`.
struct Items<'de>(De<'de>);
impl<'de> SeqAccess<'de> for Items<'de> {
    type Error = No;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, No> {
        if self.0.items == 0 || self.0.d.is_empty() {
            return Ok(None);
        }
        let (a, b) = self.0.d.split_at(self.0.d.len() / self.0.items);
        self.0.d = b;
        self.0.items -= 1;
        seed.deserialize(De { form: match self.0.form { Seq => Borrowed, f => f }, d: a, some: false, items: 0 }).map(Some)
    }
}
/// As `De`, presenting a sequence of `items` values of the form.
struct Many<'de>(De<'de>);
impl<'de> serde::Deserializer<'de> for Many<'de> {
    type Error = No;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, No> {
        v.visit_seq(Items(self.0))
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn de(form: Form, d: &[u8]) -> De<'_> {
    De { form, d, some: false, items: 0 }
}
fn bytes_of<'de>(form: Form, d: &'de [u8]) -> Result<ByteData<'de>, No> {
    ByteData::deserialize(de(form, d))
}
fn text_of<'de>(form: Form, d: &'de [u8]) -> Result<StringData<'de>, No> {
    StringData::deserialize(de(form, d))
}
macro_rules! is {
    ($r:expr, $d:expr, $m:literal) => {
        match $r {
            Ok(v) => {
                chk!(v.len() == $d.len() && same_all(v.as_ref(), $d), $m);
            }
            Err(_) => chk!(false, $m),
        }
    };
}
fn raw<'a>(s: &'a StringData<'_>) -> &'a [u8] {
    s.as_bytes()
}
macro_rules! is_text {
    ($r:expr, $d:expr, $m:literal) => {
        match $r {
            Ok(v) => {
                chk!(v.len() == $d.len() && same_all(raw(&v), $d), $m);
            }
            Err(_) => chk!(false, $m),
        }
    };
}
/// Forms of another kind than bytes (or, with `text`, than text).
fn other(text: bool) -> Form {
    match any_in(0, 5) {
        0 => Num(any_u64()),
        1 => Flag(any_bool()),
        2 => Unit,
        3 => Null,
        4 => if text { Borrowed } else { Num(any_u8() as u64) },
        _ => if text { Transient } else { Flag(false) },
    }
}
/// One path for each `i` up to `max`.
fn each<F: FnMut(usize)>(max: usize, mut f: F) {
    let n = any_usize();
    let mut i = 0;
    while i <= max {
        if n == i {
            f(i);
            return;
        }
        i += 1;
    }
    assume(false);
}
const LENS: [usize; 4] = [0, 2, 14, 17];
const TEXT: [u8; 4] = [ASC, 0xC3, 0xE2, 0xF0];

harnesses! {
    /// what is written is the content, as bytes or as text
    fn ser_borrowed [24] { let d: [u8; 17] = any_bytes(); each(3, |i| { let n = LENS[i]; let mut o = [0; 20]; let r = mk(BORROWED, &d, 0, n).serialize(Keep(&mut o)); chk!(r.is_ok() && r.unwrap() == (false, n) && same_all(&o[..n], &d[..n]), "written"); reach!(); }); }
    fn ser_chunk [24] { let d: [u8; 14] = any_bytes(); each(2, |i| { let n = LENS[i]; let mut o = [0; 20]; let r = mk(CHUNK, &d, 0, n).serialize(Keep(&mut o)); chk!(r.is_ok() && r.unwrap() == (false, n) && same_all(&o[..n], &d[..n]), "written"); reach!(); }); }
    fn ser_shared [24] { let d: [u8; 6] = any_bytes(); let mut o = [0; 20]; let r = mk(SHARED_SL, &d, 1, 4).serialize(Keep(&mut o)); chk!(r.is_ok() && r.unwrap() == (false, 3) && same_all(&o[..3], &d[1..4]), "written"); reach!(); }
    fn ser_sharedbytes [24] { let d: [u8; 6] = any_bytes(); let mut o = [0; 20]; let r = SharedBytes::from_slice(&d).into_sliced(1, 3).serialize(Keep(&mut o)); chk!(r.is_ok() && r.unwrap() == (false, 3) && same_all(&o[..3], &d[1..4]), "written"); reach!(); }
    fn ser_text [24] { let mut d: [u8; 12] = any_bytes(); let n = leads(&TEXT, &mut d); let mut o = [0; 20]; let r = StringData::from_borrowed(text(&d[..n])).serialize(Keep(&mut o)); chk!(r.is_ok() && r.unwrap() == (true, n) && same_all(&o[..n], &d[..n]), "written"); reach!(); }
    /// byte values from every form
    fn de_borrowed [24] { let d: [u8; 17] = any_bytes(); each(3, |i| { let d = &d[..LENS[i]]; let r = bytes_of(Borrowed, d); is!(&r, d, "read"); reach!(); }); }
    fn de_transient [24] { let d: [u8; 14] = any_bytes(); each(2, |i| { let d = &d[..LENS[i]]; let r = bytes_of(Transient, d); is!(&r, d, "read"); reach!(); }); }
    fn de_transient_long [24] { let d: [u8; 17] = any_bytes(); let r = bytes_of(Transient, &d); is!(&r, &d, "read"); reach!(); }
    fn de_owned [24] { let d: [u8; 3] = any_bytes(); let r = bytes_of(Owned, &d); is!(&r, &d, "read"); reach!(); }
    fn de_owned_long [24] { let d: [u8; 17] = any_bytes(); let r = bytes_of(Owned, &d); is!(&r, &d, "read"); reach!(); }
    fn de_other [24] { chk!(bytes_of(other(false), b"abc").is_err(), "a value from another kind of input"); reach!(); }
    /// the same for values that keep nothing of the input
    fn st_borrowed [24] { let d: [u8; 14] = any_bytes(); each(2, |i| { let d = &d[..LENS[i]]; let r = ByteData::deserialize_static(de(Borrowed, d)); is!(&r, d, "read"); reach!(); }); }
    fn st_transient [24] { let d: [u8; 14] = any_bytes(); each(2, |i| { let d = &d[..LENS[i]]; let r = ByteData::deserialize_static(de(Transient, d)); is!(&r, d, "read"); reach!(); }); }
    fn st_transient_long [24] { let d: [u8; 17] = any_bytes(); let r = ByteData::deserialize_static(de(Transient, &d)); is!(&r, &d, "read"); reach!(); }
    fn st_owned [24] { let d: [u8; 3] = any_bytes(); let r = ByteData::deserialize_static(de(Owned, &d)); is!(&r, &d, "read"); reach!(); }
    fn st_other [24] { chk!(ByteData::deserialize_static(de(other(false), b"abc")).is_err(), "a value from another kind of input"); reach!(); }
    /// shared buffers
    fn sh_transient [24] { let d: [u8; 17] = any_bytes(); each(3, |i| { let d = &d[..LENS[i]]; let r = SharedBytes::deserialize(de(Transient, d)); is!(&r, d, "read"); reach!(); }); }
    fn sh_borrowed [24] { let d: [u8; 3] = any_bytes(); let r = SharedBytes::deserialize(de(Borrowed, &d)); is!(&r, &d, "read"); reach!(); }
    fn sh_owned [24] { let d: [u8; 3] = any_bytes(); let r = SharedBytes::deserialize(de(Owned, &d)); is!(&r, &d, "read"); reach!(); }
    fn sh_other [24] { chk!(SharedBytes::deserialize(de(other(false), b"abc")).is_err(), "a value from another kind of input"); reach!(); }
    /// optional values
    fn opt_null [24] { let r = ByteData::deserialize_static_opt(de(if any_bool() { Null } else { Unit }, b"abc")); chk!(matches!(r, Ok(None)), "null"); reach!(); }
    fn opt_some [24] { let d: [u8; 3] = any_bytes(); each(1, |i| { let r = ByteData::deserialize_static_opt(De { form: [Transient, Borrowed][i], d: &d, some: true, items: 0 }); chk!(matches!(&r, Ok(Some(_))), "some"); if let Ok(Some(v)) = &r { chk!(same_all(v.as_ref(), &d), "read"); } reach!(); }); }
    fn opt_plain [24] { let d: [u8; 3] = any_bytes(); each(1, |i| { let r = ByteData::deserialize_static_opt(de([Transient, Borrowed][i], &d)); chk!(matches!(&r, Ok(Some(_))), "some"); if let Ok(Some(v)) = &r { chk!(same_all(v.as_ref(), &d), "read"); } reach!(); }); }
    fn opt_owned [24] { let d: [u8; 3] = any_bytes(); let r = ByteData::deserialize_static_opt(de(Owned, &d)); chk!(matches!(&r, Ok(Some(_))), "some"); if let Ok(Some(v)) = &r { chk!(same_all(v.as_ref(), &d), "read"); } reach!(); }
    fn opt_other [24] { let r = ByteData::deserialize_static_opt(de(if any_bool() { Num(any_u64()) } else { Flag(any_bool()) }, b"abc")); chk!(r.is_err(), "a value from another kind of input"); reach!(); }
    /// sequences of values
    fn vec_bytes [24] { let d: [u8; 4] = any_bytes(); let r = ByteData::deserialize_static_vec(Many(De { form: Transient, d: &d, some: false, items: 2 })); chk!(matches!(&r, Ok(v) if v.len() == 2), "items"); if let Ok(v) = &r { chk!(same_all(v[0].as_ref(), &d[..2]) && same_all(v[1].as_ref(), &d[2..]), "read"); } reach!(); }
    fn vec_none [24] { let r = ByteData::deserialize_static_vec(Many(De { form: Transient, d: &[], some: false, items: 0 })); chk!(matches!(&r, Ok(v) if v.len() == 0), "items"); reach!(); }
    fn vec_bad [24] { let r = ByteData::deserialize_static_vec(Many(De { form: Flag(any_bool()), d: b"abcd", some: false, items: 2 })); chk!(r.is_err(), "a value from another kind of input"); reach!(); }
    fn vec_text [24] { let mut d: [u8; 4] = any_bytes(); let n = leads(&[0xC3, 0xCE], &mut d); let r = StringData::deserialize_static_vec(Many(De { form: TransientText, d: &d[..n], some: false, items: 2 })); chk!(matches!(&r, Ok(v) if v.len() == 2), "items"); if let Ok(v) = &r { chk!(same_all(raw(&v[0]), &d[..2]) && same_all(raw(&v[1]), &d[2..]), "read"); } reach!(); }
    /// text values from every form
    fn txt_borrowed [24] { let mut d: [u8; 12] = any_bytes(); let n = leads(&TEXT, &mut d); let r = text_of(BorrowedText, &d[..n]); is_text!(&r, &d[..n], "read"); reach!(); }
    fn txt_transient [24] { let mut d: [u8; 12] = any_bytes(); let n = leads(&TEXT, &mut d); let r = text_of(TransientText, &d[..n]); is_text!(&r, &d[..n], "read"); reach!(); }
    fn txt_transient_long [24] { let d: [u8; 17] = any_bytes(); assume(d.iter().all(|b| *b < 0x80)); let r = text_of(TransientText, &d); is_text!(&r, &d, "read"); reach!(); }
    fn txt_owned [24] { let mut d: [u8; 4] = any_bytes(); let n = leads(&[ASC, 0xC3], &mut d); let r = text_of(OwnedText, &d[..n]); is_text!(&r, &d[..n], "read"); reach!(); }
    fn txt_other [24] { chk!(text_of(other(true), b"a\xFFc").is_err(), "a value from another kind of input"); reach!(); }
    fn txt_st [24] { let mut d: [u8; 12] = any_bytes(); let n = leads(&TEXT, &mut d); each(1, |i| { let r = StringData::deserialize_static(de([TransientText, BorrowedText][i], &d[..n])); is_text!(&r, &d[..n], "read"); reach!(); }); }
    fn txt_st_long [24] { let d: [u8; 17] = any_bytes(); assume(d.iter().all(|b| *b < 0x80)); let r = StringData::deserialize_static(de(TransientText, &d)); is_text!(&r, &d, "read"); reach!(); }
    fn txt_st_owned [24] { let mut d: [u8; 4] = any_bytes(); let n = leads(&[ASC, 0xC3], &mut d); let r = StringData::deserialize_static(de(OwnedText, &d[..n])); is_text!(&r, &d[..n], "read"); reach!(); }
    fn txt_st_other [24] { chk!(StringData::deserialize_static(de(other(true), b"a\xFFc")).is_err(), "a value from another kind of input"); reach!(); }
    fn txt_opt [24] { let mut d: [u8; 4] = any_bytes(); let n = leads(&[ASC, 0xC3], &mut d); let d = &d[..n]; each(3, |i| { let r = StringData::deserialize_static_opt(De { form: [TransientText, BorrowedText][i & 1], d, some: i > 1, items: 0 }); chk!(matches!(&r, Ok(Some(_))), "some"); if let Ok(Some(v)) = &r { chk!(same_all(raw(v), d), "read"); } reach!(); }); }
    fn txt_opt_null [24] { let r = StringData::deserialize_static_opt(de(if any_bool() { Null } else { Unit }, b"abc")); chk!(matches!(r, Ok(None)), "null"); reach!(); }
}
