//! Definitions whose fields and variants are called what a macro may call something of its own. They must not misbehave;
//! that they are accepted at all is not required (the build leaves them out otherwise).
#![allow(dead_code, unused_imports, non_camel_case_types, unused_parens, unused_variables, clippy::all)]
include!("prelude.rs");
use codec::Entry;

type V8 = Vec<u8>;

/// Names used inside what the macros write.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct InnerNames { pub offset: u16, pub encoder: V8, pub buf: u32, pub builder: V8, pub len: u8, pub item: V8, pub ssz: V8, pub start: u16 }
model!(InnerNames, Container { offset: u16, encoder: V8, buf: u32, builder: V8, len: u8, item: V8, ssz: V8, start: u16 });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct InnerNamesFixed { pub offset: u16, pub encoder: u64, pub buf: u32, pub builder: u8, pub len: u8, pub inner: [u8; 5], pub selector: bool }
model!(InnerNamesFixed, Container { offset: u16, encoder: u64, buf: u32, builder: u8, len: u8, inner: [u8; 5], selector: bool });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct LastBytes { pub a: u16, pub bytes: [u8; 7] }
model!(LastBytes, Container { a: u16, bytes: [u8; 7] });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct LastSlice { pub a: V8, pub b: u32, pub slice: V8 }
model!(LastSlice, Container { a: V8, b: u32, slice: V8 });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct LastDecoder { pub a: V8, pub b: u32, pub decoder: V8 }
model!(LastDecoder, Container { a: V8, b: u32, decoder: V8 });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TransparentBytes { pub bytes: V8 }
model!(TransparentBytes, Wrapper { bytes: V8 });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum RawVariants { r#fn(u8), inner(V8), Self_(u16), Ok(bool), None(u32) }
impl Model for RawVariants {
    fn schema() -> Schema {
        Schema::Union(vec![Some(u8::schema()), Some(V8::schema()), Some(u16::schema()), Some(bool::schema()), Some(u32::schema())])
    }
    fn from_val(v: &Val) -> Self {
        let (i, b) = v.union();
        let b = b.unwrap();
        match i {
            0 => RawVariants::r#fn(Model::from_val(b)),
            1 => RawVariants::inner(Model::from_val(b)),
            2 => RawVariants::Self_(Model::from_val(b)),
            3 => RawVariants::Ok(Model::from_val(b)),
            _ => RawVariants::None(Model::from_val(b)),
        }
    }
    fn to_val(&self) -> Val {
        let (i, v) = match self {
            RawVariants::r#fn(x) => (0, x.to_val()),
            RawVariants::inner(x) => (1, x.to_val()),
            RawVariants::Self_(x) => (2, x.to_val()),
            RawVariants::Ok(x) => (3, x.to_val()),
            RawVariants::None(x) => (4, x.to_val()),
        };
        Val::Union(i, Some(Box::new(v)))
    }
    fn heap() -> Heap { Heap::bytes() }
}

pub fn table() -> Vec<Entry> {
    codec::entries![InnerNames, InnerNamesFixed, LastBytes, LastSlice, LastDecoder, TransparentBytes, RawVariants]
}
