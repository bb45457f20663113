//! Legacy option codecs, standalone and as fields.
use alloy_primitives::{Bytes, B256, U256};
use codec::{entry, Entry, Heap, Model};
use engine::schema::*;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Encode};
use ssz_derive::{Decode, Encode};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::sync::Arc;
use typenum::{U12, U9};

pub struct Encoded {
    pub bytes: Vec<u8>,
    pub appended: Vec<u8>,
    pub len: usize,
    pub meta: [(bool, usize); 2],
}

pub struct Codec {
    pub name: String,
    pub schema: Schema,
    pub encode: fn(&Val, &[u8]) -> Encoded,
    /// The value and its encoding.
    pub decode: fn(&[u8]) -> Result<(Val, Vec<u8>), String>,
}

macro_rules! legacies {
    ($($m:ident: $t:ty;)*) => {
        $(codec::legacy_codec!($m, $t);)*
        pub fn codecs() -> Vec<Codec> {
            vec![$(Codec {
                name: codec::short(std::any::type_name::<$t>()),
                schema: $m::model::schema(),
                encode: |v, p| {
                    let x = $m::model::from_val(v);
                    let mut appended = p.to_vec();
                    $m::encode::ssz_append(&x, &mut appended);
                    Encoded {
                        bytes: $m::encode::as_ssz_bytes(&x),
                        appended,
                        len: $m::encode::ssz_bytes_len(&x),
                        meta: [
                            ($m::encode::is_ssz_fixed_len(), $m::encode::ssz_fixed_len()),
                            ($m::decode::is_ssz_fixed_len(), $m::decode::ssz_fixed_len()),
                        ],
                    }
                },
                decode: |b| match $m::decode::from_ssz_bytes(b) {
                    Ok(x) => Ok(($m::model::to_val(&x), $m::encode::as_ssz_bytes(&x))),
                    Err(e) => Err(format!("{e:?}")),
                },
            }),*]
        }
    };
}

type V = Vec<u8>;
type VV = Vec<Vec<u8>>;
type Pair = (u8, V);
type FixedPair = (u16, bool);
type OptU8 = Option<u8>;
type OptV = Option<V>;
type OptOpt = Option<Option<u16>>;
type Empty = [u8; 0];
type Three = [u8; 3];
type MapT = BTreeMap<u8, V>;
type SetT = BTreeSet<u16>;
type Bl = BitList<U9>;
type Bv = BitVector<U12>;
type Small = SmallVec<[u16; 2]>;
type ArcV = Arc<V>;

legacies! {
    l_u8: u8;
    l_u16: u16;
    l_u64: u64;
    l_bool: bool;
    l_u256: U256;
    l_b256: B256;
    l_nz: NonZeroUsize;
    l_bytes: Bytes;
    l_v: V;
    l_vv: VV;
    l_pair: Pair;
    l_fixed_pair: FixedPair;
    l_opt: OptU8;
    l_optv: OptV;
    l_optopt: OptOpt;
    l_empty: Empty;
    l_three: Three;
    l_map: MapT;
    l_set: SetT;
    l_bitlist: Bl;
    l_bitvector: Bv;
    l_bitdyn: BitVectorDynamic;
    l_small: Small;
    l_arc: ArcV;
    l_inner: Inner;
    l_fixed_inner: FixedInner;
    l_un: Un;
    l_tag: Tag;
}

/// A struct with its model. `[m]` marks a field encoded by the codec module m.
macro_rules! model_struct {
    (@schema $t:ty) => { <$t as Model>::schema() };
    (@schema $t:ty, $m:ident) => { $m::model::schema() };
    (@from $v:expr, $t:ty) => { <$t as Model>::from_val($v) };
    (@from $v:expr, $t:ty, $m:ident) => { $m::model::from_val($v) };
    (@to $x:expr, $t:ty) => { <$t as Model>::to_val($x) };
    (@to $x:expr, $t:ty, $m:ident) => { $m::model::to_val($x) };
    (@heap $t:ty) => { <$t as Model>::heap() };
    (@heap $t:ty, $m:ident) => { $m::model::heap() };
    ($($name:ident { $($f:ident: $t:ty $([$m:ident $lit:literal])?),* })*) => {$(
        #[derive(Encode, Decode, Debug, PartialEq, Clone)]
        pub struct $name {
            $($(#[ssz(with = $lit)])? $f: $t),*
        }
        impl Model for $name {
            fn schema() -> Schema {
                container(vec![$(model_struct!(@schema $t $(, $m)?)),*])
            }
            fn from_val(v: &Val) -> Self {
                let mut it = v.seq().iter();
                $name { $($f: model_struct!(@from it.next().unwrap(), $t $(, $m)?)),* }
            }
            fn to_val(&self) -> Val {
                Val::Seq(vec![$(model_struct!(@to &self.$f, $t $(, $m)?)),*])
            }
            fn heap() -> Heap {
                Heap::container(&[$(model_struct!(@heap $t $(, $m)?)),*])
            }
        }
    )*};
}

model_struct! {
    Inner { a: u8, b: V, c: u16 }
    FixedInner { a: u8, b: u32 }
    One { a: Option<u16> [l_u16 "l_u16"] }
    OneVar { a: Option<V> [l_v "l_v"] }
    First { a: Option<u64> [l_u64 "l_u64"], b: u8 }
    Last { a: u8, b: Option<u64> [l_u64 "l_u64"] }
    Middle { a: V, b: Option<V> [l_v "l_v"], c: V }
    Between { a: u16, b: Option<V> [l_v "l_v"], c: u32 }
    Two { a: Option<u8> [l_u8 "l_u8"], b: Option<V> [l_v "l_v"] }
    TwoSame { a: Option<V> [l_v "l_v"], b: u8, c: Option<V> [l_v "l_v"] }
    Mixed { a: Option<u8>, b: Option<OptU8> [l_opt "l_opt"], c: Option<OptV> [l_optv "l_optv"], d: Option<V> }
    Deep { a: Option<Inner> [l_inner "l_inner"], b: Option<FixedInner> [l_fixed_inner "l_fixed_inner"], c: Inner }
    Degenerate { a: Option<Empty> [l_empty "l_empty"], b: Option<Empty> [l_empty "l_empty"] }
    Unions { a: Option<Un> [l_un "l_un"], b: Un, c: Option<Tag> [l_tag "l_tag"] }
    Bits { a: Option<Bl> [l_bitlist "l_bitlist"], b: Option<Bv> [l_bitvector "l_bitvector"], c: Option<BitVectorDynamic> [l_bitdyn "l_bitdyn"] }
    Many {
        a: Option<u8> [l_u8 "l_u8"], b: Option<u16> [l_u16 "l_u16"], c: Option<bool> [l_bool "l_bool"],
        d: Option<B256> [l_b256 "l_b256"], e: Option<V> [l_v "l_v"], f: Option<VV> [l_vv "l_vv"],
        g: Option<Pair> [l_pair "l_pair"], h: Option<FixedPair> [l_fixed_pair "l_fixed_pair"],
        i: Option<OptOpt> [l_optopt "l_optopt"], j: Option<Three> [l_three "l_three"]
    }
}

macro_rules! model_wrapper {
    ($($name:ident($t:ty, $m:ident, $lit:literal);)*) => {$(
        #[derive(Encode, Decode, Debug, PartialEq, Clone)]
        #[ssz(struct_behaviour = "transparent")]
        pub struct $name(#[ssz(with = $lit)] Option<$t>);
        impl Model for $name {
            fn schema() -> Schema {
                Schema::Wrapper(vec![field($m::model::schema())])
            }
            fn from_val(v: &Val) -> Self {
                $name($m::model::from_val(&v.seq()[0]))
            }
            fn to_val(&self) -> Val {
                Val::Seq(vec![$m::model::to_val(&self.0)])
            }
            fn heap() -> Heap {
                $m::model::heap()
            }
        }
    )*};
}

model_wrapper! {
    WrapU16(u16, l_u16, "l_u16");
    WrapV(V, l_v, "l_v");
    WrapOpt(OptU8, l_opt, "l_opt");
}

#[derive(Encode, Decode, Debug, PartialEq, Clone)]
#[ssz(enum_behaviour = "union")]
pub enum Un {
    A(u8),
    B(V),
    C(Inner),
}

impl Model for Un {
    fn schema() -> Schema {
        Schema::Union(vec![Some(u8::schema()), Some(V::schema()), Some(Inner::schema())])
    }
    fn from_val(v: &Val) -> Self {
        match v.union() {
            (0, Some(x)) => Un::A(Model::from_val(x)),
            (1, Some(x)) => Un::B(Model::from_val(x)),
            (2, Some(x)) => Un::C(Model::from_val(x)),
            _ => unreachable!(),
        }
    }
    fn to_val(&self) -> Val {
        let (i, v) = match self {
            Un::A(x) => (0, x.to_val()),
            Un::B(x) => (1, x.to_val()),
            Un::C(x) => (2, x.to_val()),
        };
        Val::Union(i, Some(Box::new(v)))
    }
    fn heap() -> Heap {
        Inner::heap()
    }
}

#[derive(Encode, Decode, Debug, PartialEq, Clone, Copy)]
#[ssz(enum_behaviour = "tag")]
pub enum Tag {
    A,
    B,
    C,
}

impl Model for Tag {
    fn schema() -> Schema {
        Schema::Tag(3)
    }
    fn from_val(v: &Val) -> Self {
        [Tag::A, Tag::B, Tag::C][v.union().0]
    }
    fn to_val(&self) -> Val {
        Val::Union(*self as usize, None)
    }
    fn heap() -> Heap {
        Heap::leaf()
    }
}

pub fn fields() -> Vec<Entry> {
    let _ = |x: &Inner| x.ssz_bytes_len();
    vec![
        entry::<One>(),
        entry::<OneVar>(),
        entry::<First>(),
        entry::<Last>(),
        entry::<Middle>(),
        entry::<Between>(),
        entry::<Two>(),
        entry::<TwoSame>(),
        entry::<Mixed>(),
        entry::<Deep>(),
        entry::<Degenerate>(),
        entry::<Unions>(),
        entry::<Bits>(),
        entry::<Many>(),
        entry::<WrapU16>(),
        entry::<WrapV>(),
        entry::<WrapOpt>(),
        entry::<Vec<One>>(),
        entry::<Vec<Two>>(),
        entry::<Option<Middle>>(),
        entry::<(u8, Two)>(),
    ]
}
