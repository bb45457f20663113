//! A serializer and a deserializer that carry one string, human readable or not.
use serde::de::{Deserializer, Visitor};
use serde::ser::{Impossible, Serialize, Serializer};
use serde::forward_to_deserialize_any;
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl serde::ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl serde::de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

pub struct Capture {
    pub human: bool,
}

fn not<T>(what: &str) -> Result<T, Error> {
    Err(Error(format!("serialized as {what}, not as a string")))
}

type No = Impossible<String, Error>;

macro_rules! refuse {
    ($($f:ident $t:ty;)*) => { $(fn $f(self, _: $t) -> Result<String, Error> { not(stringify!($f)) })* };
}

impl Serializer for Capture {
    type Ok = String;
    type Error = Error;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    refuse! {
        serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64;
        serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_f32 f32;
        serialize_f64 f64; serialize_char char; serialize_bytes &[u8]; serialize_unit_struct &'static str;
    }
    fn serialize_str(self, v: &str) -> Result<String, Error> {
        Ok(v.to_string())
    }
    fn serialize_none(self) -> Result<String, Error> {
        not("none")
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<String, Error> {
        not("some")
    }
    fn serialize_unit(self) -> Result<String, Error> {
        not("unit")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<String, Error> {
        not("unit variant")
    }
    // A newtype is transparent in the formats that have strings.
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<String, Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<String, Error> {
        not("newtype variant")
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, Error> {
        not("seq")
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Error> {
        not("tuple")
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Error> {
        not("tuple struct")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> {
        not("tuple variant")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Error> {
        not("map")
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Error> {
        not("struct")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Error> {
        not("struct variant")
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

/// `how`: bit 0 and 1 choose visit_str, visit_string or visit_borrowed_str; bit 2 is not human readable.
pub struct Plain<'a> {
    pub s: &'a str,
    pub how: u8,
}

impl<'de> Deserializer<'de> for Plain<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.how & 3 {
            0 => v.visit_str(self.s),
            1 => v.visit_string(self.s.to_string()),
            _ => v.visit_borrowed_str(self.s),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn is_human_readable(&self) -> bool {
        self.how & 4 == 0
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
