//! Definitions written by hand: spellings and shapes the generator does not write.
#![allow(dead_code, unused_imports, non_camel_case_types, unused_parens, unused_variables, clippy::all)]
include!("prelude.rs");
use codec::Entry;
use std::marker::PhantomData;

macro_rules! model {
    ($(@[$($g:tt)*])? $t:ty, $kind:ident { $($f:tt : $ft:ty $(| $ser:literal $de:literal)?),* $(,)? }) => {
        impl $($($g)*)? Model for $t {
            fn schema() -> Schema {
                #[allow(unused_mut)]
                let mut v: Vec<Field> = vec![];
                $(
                    #[allow(unused_mut)]
                    let mut f = field(<$ft as Model>::schema());
                    $(f.skip_ser = $ser; f.skip_de = $de;)?
                    v.push(f);
                )*
                Schema::$kind(v)
            }
            fn from_val(v: &Val) -> Self {
                let mut it = v.seq().iter();
                let _ = &mut it;
                Self { $($f: <$ft as Model>::from_val(it.next().unwrap())),* }
            }
            fn to_val(&self) -> Val { Val::Seq(vec![$(Model::to_val(&self.$f)),*]) }
            fn heap() -> Heap { Heap::container(&[$(<$ft as Model>::heap()),*]) }
        }
    };
}

macro_rules! model_enum {
    ($(@[$($g:tt)*])? $t:ty, $kind:ident { $($v:ident($ft:ty)),* $(,)? }) => {
        impl $($($g)*)? Model for $t {
            fn schema() -> Schema { wrap!($kind, vec![$(<$ft as Model>::schema()),*]) }
            fn from_val(v: &Val) -> Self {
                let (i, b) = v.union();
                let mut k = 0;
                $(
                    if i == k { return Self::$v(<$ft as Model>::from_val(b.unwrap())); }
                    k += 1;
                )*
                let _ = k;
                panic!("harness: variant")
            }
            fn to_val(&self) -> Val {
                let mut k = 0;
                $(
                    if let Self::$v(x) = self { return Val::Union(k, Some(Box::new(Model::to_val(x)))); }
                    k += 1;
                )*
                let _ = k;
                unreachable!()
            }
            fn heap() -> Heap { Heap::any_of(&[$(<$ft as Model>::heap()),*]) }
        }
    };
}

macro_rules! wrap {
    (Union, $v:expr) => { Schema::Union($v.into_iter().map(Some).collect()) };
    (TransEnum, $v:expr) => { Schema::TransEnum($v) };
}

macro_rules! model_tag {
    ($t:ty { $($v:ident),* $(,)? }) => {
        impl Model for $t {
            fn schema() -> Schema { Schema::Tag([$(stringify!($v)),*].len()) }
            fn from_val(v: &Val) -> Self {
                let all = [$(<$t>::$v),*];
                all[v.union().0].clone()
            }
            fn to_val(&self) -> Val {
                let all = [$(<$t>::$v),*];
                Val::Union(all.iter().position(|x| x == self).unwrap(), None)
            }
            fn heap() -> Heap { Heap::leaf() }
        }
    };
}

type V8 = Vec<u8>;
type Alias<T> = Vec<T>;

// --- names -------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct RawNames { pub r#type: u16, pub r#fn: V8, pub r#struct: u8, pub r#match: Vec<u16> }
model!(RawNames, Container { r#type: u16, r#fn: V8, r#struct: u8, r#match: Vec<u16> });

// --- shapes ------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Unit;
model!(Unit, Container {});

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct EmptyTuple();
model!(EmptyTuple, Container {});

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Single { pub only: V8 }
model!(Single, Container { only: V8 });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct WithEmpty { pub a: Unit, pub b: V8, pub c: EmptyTuple, pub d: u8, pub e: [u8; 0] }
model!(WithEmpty, Container { a: Unit, b: V8, c: EmptyTuple, d: u8, e: [u8; 0] });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct Wrap1(pub Single);
model!(Wrap1, Wrapper { 0: Single });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct Wrap2 { pub w: Wrap1 }
model!(Wrap2, Wrapper { w: Wrap1 });

/// A fixed-size part longer than 255 and than 65535 bytes, so that the first offset has several bytes.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct LongFixed { pub a: V8, pub b: [u8; 300], pub c: V8 }
model!(LongFixed, Container { a: V8, b: [u8; 300], c: V8 });
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct VeryLongFixed { pub a: V8, pub b: [u8; 40000], pub c: [u8; 40000], pub d: Vec<u16> }
model!(VeryLongFixed, Container { a: V8, b: [u8; 40000], c: [u8; 40000], d: Vec<u16> });

// --- attribute spellings -------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct SkipSpelled {
    #[ssz(skip_serializing = true, skip_deserializing = true)]
    pub a: u16,
    #[ssz(skip_serializing = false, skip_deserializing = false)]
    pub b: V8,
    /// documented
    #[doc = "twice"]
    #[allow(dead_code)]
    #[ssz(skip_deserializing, skip_serializing,)]
    #[allow(unused)]
    pub c: V8,
    #[ssz()]
    pub d: u32,
    #[cfg_attr(all(), ssz(skip_serializing, skip_deserializing))]
    pub e: u64,
    #[cfg_attr(any(), ssz(skip_serializing, skip_deserializing))]
    pub f: u64,
    #[cfg(any())]
    pub g: V8,
    #[cfg(all())]
    pub h: V8,
}
model!(SkipSpelled, Container { a: u16 | true true, b: V8, c: V8 | true true, d: u32, e: u64 | true true, f: u64, h: V8 });

#[derive(Debug, Clone, PartialEq)]
#[derive(Encode)]
#[derive(Decode)]
#[allow(dead_code)]
/// documented
#[ssz(struct_behaviour = "container")]
#[repr(C)]
pub struct Apart { pub a: u8, pub b: V8 }
model!(Apart, Container { a: u8, b: V8 });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct WrapSpelled {
    #[ssz(skip_serializing = true, skip_deserializing = true)]
    pub a: V8,
    #[ssz(skip_serializing = false)]
    pub b: Vec<u32>,
    #[ssz(skip_serializing, skip_deserializing = true)]
    pub c: u8,
}
model!(WrapSpelled, Wrapper { a: V8 | true true, b: Vec<u32>, c: u8 | true true });

// --- skipped fields whose default is not zero -----------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Seven(pub u8);
impl Default for Seven {
    fn default() -> Self { Seven(7) }
}

/// `Seven` has no codec at all: a skipped field needs none.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct SkipForeign {
    #[ssz(skip_serializing, skip_deserializing)]
    pub a: Seven,
    pub b: V8,
    #[ssz(skip_serializing, skip_deserializing)]
    pub c: Seven,
    pub d: u16,
}
impl Model for SkipForeign {
    fn schema() -> Schema { container(vec![V8::schema(), u16::schema()]) }
    fn from_val(v: &Val) -> Self {
        let s = v.seq();
        SkipForeign { a: Seven::default(), b: Model::from_val(&s[0]), c: Seven::default(), d: Model::from_val(&s[1]) }
    }
    fn to_val(&self) -> Val {
        let ok = self.a == Seven(7) && self.c == Seven(7);
        Val::Seq(if ok { vec![self.b.to_val(), self.d.to_val()] } else { vec![] })
    }
    fn heap() -> Heap { Heap::container(&[Heap::bytes(), Heap::leaf()]) }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct WrapForeign(#[ssz(skip_serializing, skip_deserializing)] pub Seven, pub V8, #[ssz(skip_serializing, skip_deserializing)] pub Seven);
impl Model for WrapForeign {
    fn schema() -> Schema { Schema::ByteList }
    fn from_val(v: &Val) -> Self { WrapForeign(Seven(7), v.bytes().to_vec(), Seven(7)) }
    fn to_val(&self) -> Val {
        if self.0 == Seven(7) && self.2 == Seven(7) { Val::Bytes(self.1.clone()) } else { Val::Bool(false) }
    }
    fn heap() -> Heap { Heap::bytes() }
}

// --- a field codec for a type without an implementation -----------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Opaque(pub u16);

pub mod opaque {
    use super::*;
    pub mod encode {
        use super::*;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 2 }
        pub fn ssz_bytes_len(_: &Opaque) -> usize { 2 }
        pub fn ssz_append(x: &Opaque, buf: &mut Vec<u8>) { buf.extend_from_slice(&x.0.to_be_bytes()) }
    }
    pub mod decode {
        use super::*;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 2 }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Opaque, ssz::DecodeError> {
            match b {
                [h, l] => Ok(Opaque(u16::from_be_bytes([*h, *l]))),
                _ => Err(ssz::DecodeError::BytesInvalid("opaque".into())),
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct HoldsOpaque { pub a: V8, #[ssz(with = "opaque")] pub b: Opaque, pub c: V8, #[ssz(with = "opaque")] pub d: Opaque }
impl Model for HoldsOpaque {
    fn schema() -> Schema { container(vec![V8::schema(), Schema::UintBe(2), V8::schema(), Schema::UintBe(2)]) }
    fn from_val(v: &Val) -> Self {
        let s = v.seq();
        HoldsOpaque { a: Model::from_val(&s[0]), b: Opaque(s[1].as_u128() as u16), c: Model::from_val(&s[2]), d: Opaque(s[3].as_u128() as u16) }
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.a.to_val(), Val::int(self.b.0 as u128), self.c.to_val(), Val::int(self.d.0 as u128)])
    }
    fn heap() -> Heap { Heap::container(&[Heap::bytes(), Heap::bytes()]) }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct FixedOpaque { #[ssz(with = "opaque")] pub a: Opaque, pub b: u8, #[ssz(with = "opaque")] pub c: Opaque }
impl Model for FixedOpaque {
    fn schema() -> Schema { container(vec![Schema::UintBe(2), Schema::Uint(1), Schema::UintBe(2)]) }
    fn from_val(v: &Val) -> Self {
        let s = v.seq();
        FixedOpaque { a: Opaque(s[0].as_u128() as u16), b: Model::from_val(&s[1]), c: Opaque(s[2].as_u128() as u16) }
    }
    fn to_val(&self) -> Val { Val::Seq(vec![Val::int(self.a.0 as u128), self.b.to_val(), Val::int(self.c.0 as u128)]) }
    fn heap() -> Heap { Heap::leaf() }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct WrapsOpaque(#[ssz(with = "opaque")] pub Opaque);
impl Model for WrapsOpaque {
    fn schema() -> Schema { Schema::UintBe(2) }
    fn from_val(v: &Val) -> Self { WrapsOpaque(Opaque(v.as_u128() as u16)) }
    fn to_val(&self) -> Val { Val::int(self.0 .0 as u128) }
    fn heap() -> Heap { Heap::leaf() }
}

// --- types in any spelling -----------------------------------------------------------------------------------------

pub trait Family { type Out: Model; const N: usize; }
#[derive(Debug, Clone, PartialEq)]
pub struct Left;
impl Family for Left { type Out = Vec<u16>; const N: usize = 3; }
impl Family for u8 { type Out = u32; const N: usize = 1; }
macro_rules! pair { ($t:ty) => { ($t, Vec<$t>) }; }

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Spelled {
    pub a: (Vec<u8>),
    pub b: std::vec::Vec<std::primitive::u16>,
    pub c: Alias<Alias<u8>>,
    pub d: <Left as Family>::Out,
    pub e: [u8; 2 + 1],
    pub f: [u8; <Left as Family>::N + 1],
    pub g: pair!(u16),
    pub h: ::std::option::Option<u8>,
    pub i: <u8 as Family>::Out,
}
impl Model for Spelled {
    fn schema() -> Schema {
        container(vec![
            Schema::List(Box::new(Schema::Uint(1))), <Vec<u16>>::schema(), <Vec<V8>>::schema(), <Vec<u16>>::schema(), Schema::ByteVec(3),
            Schema::ByteVec(4), <(u16, Vec<u16>)>::schema(), <Option<u8>>::schema(), Schema::Uint(4),
        ])
    }
    fn from_val(v: &Val) -> Self {
        let s = v.seq();
        Spelled { a: Model::from_val(&s[0]), b: Model::from_val(&s[1]), c: Model::from_val(&s[2]), d: Model::from_val(&s[3]),
            e: Model::from_val(&s[4]), f: Model::from_val(&s[5]), g: Model::from_val(&s[6]), h: Model::from_val(&s[7]), i: Model::from_val(&s[8]) }
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(),
            self.g.to_val(), self.h.to_val(), self.i.to_val()])
    }
    fn heap() -> Heap { Heap::container(&[<V8 as Model>::heap(), <Vec<u16> as Model>::heap(), <Vec<V8> as Model>::heap(), <Vec<u16> as Model>::heap(), <(u16, Vec<u16>)>::heap()]) }
}

// --- generics ---------------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Projected<F: Family> where F::Out: Encode + Decode { pub a: F::Out, pub b: u8, pub c: Vec<F::Out> }
model!(@[<F: Family + Clone + PartialEq + std::fmt::Debug + 'static>] Projected<F>, Container { a: F::Out, b: u8, c: Vec<F::Out> });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Defaults<T: Encode + Decode = u16, const N: usize = 4> { pub a: [u8; N], pub b: T, pub c: Option<T> }
model!(@[<T: Model, const N: usize>] Defaults<T, N>, Container { a: [u8; N], b: T, c: Option<T> });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct Marked<T: Encode + Decode, M: Default>(pub T, #[ssz(skip_serializing, skip_deserializing)] pub M);
impl<T: Model> Model for Marked<T, Seven> {
    fn schema() -> Schema { T::schema() }
    fn from_val(v: &Val) -> Self { Marked(T::from_val(v), Seven(7)) }
    fn to_val(&self) -> Val { if self.1 == Seven(7) { self.0.to_val() } else { Val::Bool(false) } }
    fn heap() -> Heap { T::heap() }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum Either<A: Encode + Decode, B> where B: Encode + Decode { Left(A), Right(B), Both((A, B)) }
model_enum!(@[<A: Model, B: Model>] Either<A, B>, Union { Left(A), Right(B), Both((A, B)) });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum AnyOf<A: Encode + Decode, B: Encode + Decode> { First(Vec<A>), Second(Option<B>), Third(Vec<u8>) }
model_enum!(@[<A: Model, B: Model>] AnyOf<A, B>, TransEnum { First(Vec<A>), Second(Option<B>), Third(Vec<u8>) });

// --- enums ----------------------------------------------------------------------------------------------------------------

/// Discriminants are not selectors.
#[repr(u8)]
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum Numbered { A(u8) = 5, B(u16) = 1, C(V8) = 0, D(bool) = 200 }
model_enum!(Numbered, Union { A(u8), B(u16), C(V8), D(bool) });

#[repr(i16)]
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum NumberedTag { A = 300, B = -1, C = 1, D, E = 0 }
model_tag!(NumberedTag { A, B, C, D, E });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum OneTag { Only }
model_tag!(OneTag { Only });

/// Sorted by name is another order than declared.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum Unsorted { Zebra(u16), Apple(u16), Mango(u16), Banana(u16) }
model_enum!(Unsorted, Union { Zebra(u16), Apple(u16), Mango(u16), Banana(u16) });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct UnsortedFields { pub z: u8, pub y: V8, pub a: u8, pub x: V8, pub b: V8 }
model!(UnsortedFields, Container { z: u8, y: V8, a: u8, x: V8, b: V8 });

/// Variants that accept the same strings: the first one wins.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum Overlapping { A(Vec<u32>), B(Vec<u16>), C(V8), D(Vec<u64>) }
model_enum!(Overlapping, TransEnum { A(Vec<u32>), B(Vec<u16>), C(V8), D(Vec<u64>) });

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum OverlappingTypes { A(Unsorted), B(Numbered), C(Single), D(BitList<typenum::U12>) }
model_enum!(OverlappingTypes, TransEnum { A(Unsorted), B(Numbered), C(Single), D(BitList<typenum::U12>) });

/// Everything at once.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Everything {
    pub a: Numbered,
    pub b: NumberedTag,
    pub c: Wrap2,
    pub d: Overlapping,
    pub e: Vec<UnsortedFields>,
    pub f: Either<u8, V8>,
    pub g: Option<Vec<NumberedTag>>,
    pub h: BTreeMap<u8, Single>,
    pub i: Defaults,
}
model!(Everything, Container { a: Numbered, b: NumberedTag, c: Wrap2, d: Overlapping, e: Vec<UnsortedFields>, f: Either<u8, V8>,
    g: Option<Vec<NumberedTag>>, h: BTreeMap<u8, Single>, i: Defaults });

// --- skipped on one side only: the encoder and the decoder have different schemas, sizes included --------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct EncShort { pub a: u8, #[ssz(skip_serializing)] pub b: u16, pub c: u32 }
model!(EncShort, Container { a: u8, b: u16 | true false, c: u32 });
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct DecShort { pub a: u8, #[ssz(skip_deserializing)] pub b: u16, pub c: u32 }
model!(DecShort, Container { a: u8, b: u16 | false true, c: u32 });
/// Variable to the encoder, fixed to the decoder.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct EncVariable { #[ssz(skip_deserializing)] pub a: V8, pub b: u16 }
model!(EncVariable, Container { a: V8 | false true, b: u16 });
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct DecVariable { #[ssz(skip_serializing)] pub a: V8, pub b: u16 }
model!(DecVariable, Container { a: V8 | true false, b: u16 });
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct HoldsOneSided<T: Encode + Decode> { pub a: u16, pub b: T, pub c: bool, pub d: T }
model!(@[<T: Model>] HoldsOneSided<T>, Container { a: u16, b: T, c: bool, d: T });
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct HoldsOneSidedVar<T: Encode + Decode> { pub a: V8, pub b: T, pub c: V8 }
model!(@[<T: Model>] HoldsOneSidedVar<T>, Container { a: V8, b: T, c: V8 });
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct WrapsOneSided<T: Encode + Decode>(pub T);
model!(@[<T: Model>] WrapsOneSided<T>, Wrapper { 0: T });

pub fn one_sided() -> Vec<Entry> {
    macro_rules! around {
        ($($t:ty),*) => {
            codec::entries![
                $($t, HoldsOneSided<$t>, HoldsOneSidedVar<$t>, WrapsOneSided<$t>, WrapsOneSided<WrapsOneSided<$t>>,
                WrapsOneSided<HoldsOneSided<$t>>, HoldsOneSided<WrapsOneSided<$t>>, Either<$t, V8>, Either<u8, $t>, ($t, u8), (V8, $t, $t), Vec<$t>,
                SmallVec<[$t; 2]>, Option<$t>, Arc<$t>, BTreeMap<u8, $t>, Vec<HoldsOneSided<$t>>, Vec<Vec<$t>>, Vec<Arc<$t>>,
                (u8, Arc<$t>, HoldsOneSided<$t>), Defaults<$t>, Marked<$t, Seven>),*
            ]
        };
    }
    around!(EncShort, DecShort, EncVariable, DecVariable)
}

pub fn table() -> Vec<Entry> {
    let mut v = both_sides();
    v.extend(one_sided());
    v
}

fn both_sides() -> Vec<Entry> {
    codec::entries![
        RawNames, Unit,
        EmptyTuple, Single, WithEmpty, Wrap1, Wrap2, LongFixed, VeryLongFixed, SkipSpelled, Apart, WrapSpelled,
        SkipForeign, WrapForeign, HoldsOpaque, FixedOpaque, WrapsOpaque, Spelled, Projected<Left>, Projected<u8>, Defaults,
        Defaults<V8>, Defaults<bool, 0>, Defaults<V8, 33>, Marked<u16, Seven>, Marked<V8, Seven>, Marked<Numbered, Seven>,
        Either<u8, u16>, Either<V8, bool>, Either<Numbered, Option<u8>>, AnyOf<u32, u8>, AnyOf<bool, V8>, Numbered, NumberedTag,
        OneTag, Unsorted, UnsortedFields, Overlapping, OverlappingTypes, Everything,
        Vec<Everything>, Vec<Numbered>, Vec<NumberedTag>, Option<Wrap2>, Vec<Wrap1>, Arc<LongFixed>, Vec<FixedOpaque>, Vec<WrapsOpaque>,
        SmallVec<[HoldsOpaque; 2]>, BTreeMap<u8, Everything>, (Apart, Single), Vec<SkipSpelled>,
    ]
}

// --- one-sided and recursive definitions -----------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode)]
pub struct Borrowed<'a, T: Encode> { pub a: &'a Vec<u8>, pub b: u16, pub c: &'a T, pub d: Arc<T> }

#[derive(Debug, Clone, PartialEq, Encode)]
#[ssz(struct_behaviour = "transparent")]
pub struct BorrowedWrap<'a>(pub &'a Vec<u16>);

#[derive(Debug, Clone, PartialEq, Encode)]
#[ssz(enum_behaviour = "union")]
pub enum BorrowedUnion<'a> { A(&'a u8), B(&'a Vec<u8>) }

#[derive(Debug, Clone, PartialEq, Encode)]
#[ssz(enum_behaviour = "transparent")]
pub enum BorrowedAny<'a> { A(&'a Vec<u32>), B(&'a Vec<u8>) }

/// As in the documentation: fixed-size variants.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum FixedAny { A(u8), B(u16), C((u8, u16)), D([u8; 5]), E(Vec<u16>) }

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
pub struct Tree { pub value: u16, pub left: Vec<Tree>, pub note: Vec<u8>, pub right: Option<Arc<Tree>> }

/// A type that can only be decoded, and definitions of such types.
#[derive(Debug, Clone, PartialEq)]
pub struct OnlyDecoded(pub u16);
impl Decode for OnlyDecoded {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 2 }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> { u16::from_ssz_bytes(b).map(OnlyDecoded) }
}
#[derive(Debug, Clone, PartialEq, Decode)]
pub struct DecodedFixed<T: Decode> { pub a: u8, pub b: T, #[ssz(skip_deserializing)] pub c: Seven, pub d: OnlyDecoded }
#[derive(Debug, Clone, PartialEq, Decode)]
pub struct DecodedMixed<T: Decode> { pub a: V8, pub b: T, pub c: Vec<OnlyDecoded>, pub d: DecodedFixed<T> }
#[derive(Debug, Clone, PartialEq, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DecodedWrap<T: Decode>(pub T, #[ssz(skip_deserializing)] pub Seven);
#[derive(Debug, Clone, PartialEq, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum DecodedUnion<T: Decode> { A(DecodedMixed<T>), B(T) }
#[derive(Debug, Clone, PartialEq, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum DecodedAny<T: Decode> { A(Vec<T>), B(V8) }
#[derive(Debug, Clone, PartialEq, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum DecodedTag { A, B, C }
