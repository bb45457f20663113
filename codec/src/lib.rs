//! Binds Rust types to schemas and values, and erases their types so that the checks are written once.
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use engine::schema::*;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, DecodeError, Encode, SszDecoder, SszDecoderBuilder, SszEncoder};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::num::NonZeroUsize;
use std::sync::Arc;
use typenum::Unsigned;

extern crate self as codec;

pub mod check;
pub mod codecs;
pub mod giant;
pub mod heap;
pub mod rustc;
pub use heap::Heap;

/// A Rust type with an SSZ schema. Conversions never call the library's codec.
pub trait Model: Encode + Decode + PartialEq + Debug + Sized + 'static {
    fn schema() -> Schema;
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
    /// How much heap a decoder of this type may need.
    fn heap() -> Heap;
}

macro_rules! uint {
    ($($t:ty, $n:expr);*) => {$(
        impl Model for $t {
            fn schema() -> Schema { Schema::Uint($n) }
            fn from_val(v: &Val) -> Self { v.as_u128().try_into().expect("harness: uint range") }
            fn to_val(&self) -> Val { Val::int(*self as u128) }
            fn heap() -> Heap { Heap::leaf() }
        }
    )*};
}
uint!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16; usize, 8);

impl Model for bool {
    fn schema() -> Schema {
        Schema::Bool
    }
    fn from_val(v: &Val) -> Self {
        v.bool()
    }
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
    fn heap() -> Heap {
        Heap::leaf()
    }
}

impl Model for NonZeroUsize {
    fn schema() -> Schema {
        Schema::NonZero(8)
    }
    fn from_val(v: &Val) -> Self {
        NonZeroUsize::new(v.as_u128() as usize).expect("harness: zero")
    }
    fn to_val(&self) -> Val {
        Val::int(self.get() as u128)
    }
    fn heap() -> Heap {
        Heap::leaf()
    }
}

impl Model for U128 {
    fn schema() -> Schema {
        Schema::Uint(16)
    }
    fn from_val(v: &Val) -> Self {
        let x = v.as_u128();
        U128::from_limbs([x as u64, (x >> 64) as u64])
    }
    fn to_val(&self) -> Val {
        let l = self.as_limbs();
        Val::int(l[0] as u128 | (l[1] as u128) << 64)
    }
    fn heap() -> Heap {
        Heap::leaf()
    }
}

impl Model for U256 {
    fn schema() -> Schema {
        Schema::Uint(32)
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Int(h, l) => U256::from_limbs([*l as u64, (*l >> 64) as u64, *h as u64, (*h >> 64) as u64]),
            _ => panic!("harness: not an int"),
        }
    }
    fn to_val(&self) -> Val {
        let l = self.as_limbs();
        Val::Int(l[2] as u128 | (l[3] as u128) << 64, l[0] as u128 | (l[1] as u128) << 64)
    }
    fn heap() -> Heap {
        Heap::leaf()
    }
}

fn arr<const N: usize>(v: &Val) -> [u8; N] {
    let mut a = [0u8; N];
    let b = v.bytes();
    assert_eq!(b.len(), N, "harness: byte vector length");
    for i in 0..N {
        a[i] = b[i];
    }
    a
}

impl<const N: usize> Model for [u8; N] {
    fn schema() -> Schema {
        Schema::ByteVec(N)
    }
    fn from_val(v: &Val) -> Self {
        arr(v)
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self[..].to_vec())
    }
    fn heap() -> Heap {
        Heap::leaf()
    }
}

impl<const N: usize> Model for FixedBytes<N> {
    fn schema() -> Schema {
        Schema::ByteVec(N)
    }
    fn from_val(v: &Val) -> Self {
        FixedBytes(arr(v))
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.0.to_vec())
    }
    fn heap() -> Heap {
        Heap::leaf()
    }
}

impl Model for Address {
    fn schema() -> Schema {
        Schema::ByteVec(20)
    }
    fn from_val(v: &Val) -> Self {
        Address(FixedBytes(arr(v)))
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.0 .0.to_vec())
    }
    fn heap() -> Heap {
        Heap::leaf()
    }
}

impl Model for Bloom {
    fn schema() -> Schema {
        Schema::ByteVec(256)
    }
    fn from_val(v: &Val) -> Self {
        Bloom(FixedBytes(arr(v)))
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.0 .0.to_vec())
    }
    fn heap() -> Heap {
        Heap::leaf()
    }
}

impl Model for Bytes {
    fn schema() -> Schema {
        Schema::ByteList
    }
    fn from_val(v: &Val) -> Self {
        Bytes::copy_from_slice(v.bytes())
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.to_vec())
    }
    fn heap() -> Heap {
        Heap::bytes()
    }
}

impl<T: Model> Model for Vec<T> {
    fn schema() -> Schema {
        Schema::List(Box::new(T::schema()))
    }
    fn from_val(v: &Val) -> Self {
        v.seq().iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
    fn heap() -> Heap {
        Heap::list::<T>()
    }
}

impl<T: Model, const N: usize> Model for SmallVec<[T; N]> {
    fn schema() -> Schema {
        Schema::List(Box::new(T::schema()))
    }
    fn from_val(v: &Val) -> Self {
        let mut out = SmallVec::new();
        for x in v.seq() {
            out.push(T::from_val(x));
        }
        out
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
    fn heap() -> Heap {
        Heap::list::<T>()
    }
}

impl<T: Model> Model for Option<T> {
    fn schema() -> Schema {
        Schema::option(T::schema())
    }
    fn from_val(v: &Val) -> Self {
        v.union().1.map(T::from_val)
    }
    fn to_val(&self) -> Val {
        match self {
            None => Val::Union(0, None),
            Some(x) => Val::Union(1, Some(Box::new(x.to_val()))),
        }
    }
    fn heap() -> Heap {
        T::heap()
    }
}

impl<T: Model> Model for Arc<T> {
    fn schema() -> Schema {
        T::schema()
    }
    fn from_val(v: &Val) -> Self {
        Arc::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn heap() -> Heap {
        Heap::boxed::<T>()
    }
}

impl<K: Model + Ord, V: Model> Model for BTreeMap<K, V> {
    fn schema() -> Schema {
        Schema::Map(Box::new(K::schema()), Box::new(V::schema()))
    }
    fn from_val(v: &Val) -> Self {
        let mut m = BTreeMap::new();
        for e in v.seq() {
            m.insert(K::from_val(&e.seq()[0]), V::from_val(&e.seq()[1]));
        }
        m
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(|(k, v)| Val::Seq(vec![k.to_val(), v.to_val()])).collect())
    }
    fn heap() -> Heap {
        Heap::tree::<(K, V)>()
    }
}

impl<T: Model + Ord> Model for BTreeSet<T> {
    fn schema() -> Schema {
        Schema::Set(Box::new(T::schema()))
    }
    fn from_val(v: &Val) -> Self {
        let mut m = BTreeSet::new();
        for e in v.seq() {
            m.insert(T::from_val(e));
        }
        m
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(|x| x.to_val()).collect())
    }
    fn heap() -> Heap {
        Heap::tree::<T>()
    }
}

macro_rules! tuples {
    ($($($t:ident $i:tt)+;)*) => {$(
        impl<$($t: Model),+> Model for ($($t,)+) {
            fn schema() -> Schema { container(vec![$($t::schema()),+]) }
            fn from_val(v: &Val) -> Self { let s = v.seq(); ($($t::from_val(&s[$i]),)+) }
            fn to_val(&self) -> Val { Val::Seq(vec![$(self.$i.to_val()),+]) }
            fn heap() -> Heap { Heap::container(&[$($t::heap()),+]) }
        }
    )*};
}
tuples! {
    A 0 B 1;
    A 0 B 1 C 2;
    A 0 B 1 C 2 D 3;
    A 0 B 1 C 2 D 3 E 4;
    A 0 B 1 C 2 D 3 E 4 F 5;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11;
}

/// Bitfields are built bit by bit, which is what `set` and `get` are for (C11 decides those).
impl<N: Unsigned + Clone + Debug + 'static> Model for BitVector<N> {
    fn schema() -> Schema {
        Schema::BitVector(N::to_usize())
    }
    fn from_val(v: &Val) -> Self {
        let mut b = Self::new();
        for (i, x) in v.bits().iter().enumerate() {
            if *x {
                b.set(i, true).expect("set within the length");
            }
        }
        b
    }
    fn to_val(&self) -> Val {
        Val::Bits((0..self.len()).map(|i| self.get(i).expect("get within the length")).collect())
    }
    fn heap() -> Heap {
        Heap::bits()
    }
}

impl<N: Unsigned + Clone + Debug + 'static> Model for BitList<N> {
    fn schema() -> Schema {
        Schema::BitList(N::to_usize())
    }
    fn from_val(v: &Val) -> Self {
        let mut b = Self::with_capacity(v.bits().len()).expect("length within the capacity");
        for (i, x) in v.bits().iter().enumerate() {
            if *x {
                b.set(i, true).expect("set within the length");
            }
        }
        b
    }
    fn to_val(&self) -> Val {
        Val::Bits((0..self.len()).map(|i| self.get(i).expect("get within the length")).collect())
    }
    fn heap() -> Heap {
        Heap::bits()
    }
}

impl Model for BitVectorDynamic {
    fn schema() -> Schema {
        Schema::BitDyn
    }
    fn from_val(v: &Val) -> Self {
        let mut b = Self::new(v.bits().len()).expect("positive multiple of 8");
        for (i, x) in v.bits().iter().enumerate() {
            if *x {
                b.set(i, true).expect("set within the length");
            }
        }
        b
    }
    fn to_val(&self) -> Val {
        Val::Bits((0..self.len()).map(|i| self.get(i).expect("get within the length")).collect())
    }
    fn heap() -> Heap {
        Heap::bits()
    }
}

// ---------------------------------------------------------------------------------------------------------

pub struct Meta {
    pub enc_fixed: bool,
    pub enc_len: usize,
    pub dec_fixed: bool,
    pub dec_len: usize,
}

pub enum Dec {
    Ok(Val),
    Err(String),
    Panic(String),
}

/// A value of an erased type.
pub trait DynVal {
    fn as_ssz_bytes(&self) -> Vec<u8>;
    fn ssz_bytes_len(&self) -> usize;
    fn ssz_append(&self, buf: &mut Vec<u8>);
    /// Every other way to the encoding of this value.
    fn entry_points(&self) -> Vec<(&'static str, Vec<u8>)>;
    /// Every way to append, after a prefix.
    fn append_points(&self, prefix: &[u8]) -> Vec<(&'static str, Vec<u8>)>;
    /// Predicted lengths through references.
    fn ref_lens(&self) -> Vec<(&'static str, usize)>;
    fn append_to(&self, enc: &mut SszEncoder);
    /// Decodes `b` and compares with `self` by `==`, both ways round.
    fn eq_decoded(&self, b: &[u8]) -> Result<bool, DecodeError>;
    fn show(&self) -> String;
}

struct Holder<T>(T);

impl<T: Model> DynVal for Holder<T> {
    fn as_ssz_bytes(&self) -> Vec<u8> {
        self.0.as_ssz_bytes()
    }
    fn ssz_bytes_len(&self) -> usize {
        self.0.ssz_bytes_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.0.ssz_append(buf)
    }
    fn entry_points(&self) -> Vec<(&'static str, Vec<u8>)> {
        let r = &self.0;
        let rr = &r;
        let mut via_append = vec![];
        r.ssz_append(&mut via_append);
        let mut via_ref_append = vec![];
        <&T as Encode>::ssz_append(&r, &mut via_ref_append);
        // Encoded in place, without moving or cloning the value: a container around a reference.
        let mut in_container = vec![];
        let fixed = <&T as Encode>::is_ssz_fixed_len();
        let mut e = SszEncoder::container(&mut in_container, if fixed { <&T as Encode>::ssz_fixed_len() } else { 4 });
        e.append(&r);
        e.finalize();
        let in_container = if fixed { in_container } else { in_container.split_off(4) };
        vec![
            ("ssz_append to an empty buffer", via_append),
            ("ssz_encode", ssz::ssz_encode(r)),
            ("reference: as_ssz_bytes", <&T as Encode>::as_ssz_bytes(&r)),
            ("reference: ssz_append", via_ref_append),
            ("reference to a reference: as_ssz_bytes", <&&T as Encode>::as_ssz_bytes(&rr)),
            ("reference: ssz_encode", ssz::ssz_encode(&r)),
            ("SszEncoder::append of a reference", in_container),
        ]
    }
    fn append_points(&self, prefix: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
        let r = &self.0;
        let mut a = prefix.to_vec();
        <&T as Encode>::ssz_append(&r, &mut a);
        let mut b = prefix.to_vec();
        <&&T as Encode>::ssz_append(&&r, &mut b);
        vec![("reference: ssz_append", a), ("reference to a reference: ssz_append", b)]
    }
    fn ref_lens(&self) -> Vec<(&'static str, usize)> {
        let r = &self.0;
        vec![
            ("ssz_bytes_len of a reference", <&T as Encode>::ssz_bytes_len(&r)),
            ("ssz_bytes_len of a reference to a reference", <&&T as Encode>::ssz_bytes_len(&&r)),
        ]
    }
    fn append_to(&self, enc: &mut SszEncoder) {
        enc.append(&self.0)
    }
    fn eq_decoded(&self, b: &[u8]) -> Result<bool, DecodeError> {
        let d = T::from_ssz_bytes(b)?;
        #[allow(clippy::eq_op)]
        Ok(d == self.0 && self.0 == d)
    }
    fn show(&self) -> String {
        format!("{:?}", self.0)
    }
}

/// The operations of an erased type.
pub trait Ops: Send + Sync {
    fn meta(&self) -> Meta;
    /// Metadata of types that must agree with this one: (what, fixed, length).
    fn other_meta(&self) -> Vec<(&'static str, bool, usize)>;
    fn value(&self, v: &Val) -> Box<dyn DynVal>;
    /// Encoding of the value inside an `Arc`, and its predicted length.
    fn arc(&self, v: &Val) -> (Vec<u8>, usize);
    fn decode(&self, b: &[u8]) -> Dec;
    /// Decodes; on success re-encodes.
    fn reencode(&self, b: &[u8]) -> Result<Option<(Vec<u8>, Val)>, String>;
    /// Decodes and drops, nothing else.
    fn touch(&self, b: &[u8]) -> Result<bool, String>;
    fn heap(&self) -> Heap;
    fn register(&self, b: &mut SszDecoderBuilder) -> Result<(), DecodeError>;
    fn decode_next(&self, d: &mut SszDecoder) -> Result<Val, DecodeError>;
    /// `decode_list_of_variable_length_items::<T, Vec<T>>`
    fn decode_list(&self, b: &[u8], max: Option<usize>) -> Result<Vec<Val>, DecodeError>;
    /// The same, nothing kept.
    fn touch_list(&self, b: &[u8], max: Option<usize>) -> bool;
    fn list_heap(&self) -> Heap;
}

pub struct OpsOf<T>(std::marker::PhantomData<fn() -> T>);

impl<T: Model> OpsOf<T> {
    pub fn new() -> Self {
        OpsOf(std::marker::PhantomData)
    }
}

impl<T: Model> Default for OpsOf<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T: Model> Ops for OpsOf<T> {
    fn meta(&self) -> Meta {
        Meta {
            enc_fixed: <T as Encode>::is_ssz_fixed_len(),
            enc_len: <T as Encode>::ssz_fixed_len(),
            dec_fixed: <T as Decode>::is_ssz_fixed_len(),
            dec_len: <T as Decode>::ssz_fixed_len(),
        }
    }
    fn other_meta(&self) -> Vec<(&'static str, bool, usize)> {
        vec![
            ("Encode for a reference", <&T as Encode>::is_ssz_fixed_len(), <&T as Encode>::ssz_fixed_len()),
            ("Encode for Arc", <Arc<T> as Encode>::is_ssz_fixed_len(), <Arc<T> as Encode>::ssz_fixed_len()),
            ("Decode for Arc", <Arc<T> as Decode>::is_ssz_fixed_len(), <Arc<T> as Decode>::ssz_fixed_len()),
        ]
    }
    fn value(&self, v: &Val) -> Box<dyn DynVal> {
        Box::new(Holder(T::from_val(v)))
    }
    fn arc(&self, v: &Val) -> (Vec<u8>, usize) {
        let a = Arc::new(T::from_val(v));
        let mut out = vec![];
        a.ssz_append(&mut out);
        let b = a.as_ssz_bytes();
        let c = ssz::ssz_encode(&a);
        let n = a.ssz_bytes_len();
        if out == b && b == c {
            (out, n)
        } else {
            (vec![], usize::MAX)
        }
    }
    fn decode(&self, b: &[u8]) -> Dec {
        match engine::lib(|| T::from_ssz_bytes(b)) {
            Ok(Ok(v)) => match engine::lib(|| v.to_val()) {
                Ok(v) => Dec::Ok(v),
                Err(p) => Dec::Panic(format!("reading the decoded value: {p}")),
            },
            Ok(Err(e)) => Dec::Err(format!("{e:?}")),
            Err(p) => Dec::Panic(p),
        }
    }
    fn reencode(&self, b: &[u8]) -> Result<Option<(Vec<u8>, Val)>, String> {
        match engine::lib(|| T::from_ssz_bytes(b)) {
            Ok(Ok(v)) => engine::lib(|| (v.as_ssz_bytes(), v.to_val())).map(Some),
            // A panic is not an acceptance; C05 decides those.
            _ => Ok(None),
        }
    }
    fn touch(&self, b: &[u8]) -> Result<bool, String> {
        engine::lib(|| T::from_ssz_bytes(b).is_ok())
    }
    fn heap(&self) -> Heap {
        T::heap()
    }
    fn register(&self, b: &mut SszDecoderBuilder) -> Result<(), DecodeError> {
        b.register_type::<T>()
    }
    fn decode_next(&self, d: &mut SszDecoder) -> Result<Val, DecodeError> {
        d.decode_next::<T>().map(|v| v.to_val())
    }
    fn decode_list(&self, b: &[u8], max: Option<usize>) -> Result<Vec<Val>, DecodeError> {
        let v: Vec<T> = ssz::decode_list_of_variable_length_items(b, max)?;
        Ok(v.iter().map(T::to_val).collect())
    }
    fn touch_list(&self, b: &[u8], max: Option<usize>) -> bool {
        ssz::decode_list_of_variable_length_items::<T, Vec<T>>(b, max).is_ok()
    }
    fn list_heap(&self) -> Heap {
        Heap::list::<T>()
    }
}

pub struct Entry {
    pub name: String,
    pub schema: Schema,
    pub ops: Box<dyn Ops>,
}

pub fn entry<T: Model>() -> Entry {
    Entry { name: short(std::any::type_name::<T>()), schema: T::schema(), ops: Box::new(OpsOf::<T>::new()) }
}

/// Type name without module paths.
pub fn short(s: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    let mut chars = s.chars().peekable();
    while let Some(c) = chars.next() {
        if c == ':' && chars.peek() == Some(&':') {
            chars.next();
            word.clear();
        } else if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            out.push_str(&word);
            word.clear();
            out.push(c);
        }
    }
    out.push_str(&word);
    // typenum numbers
    let mut out = out.replace("UInt<", "<").replace("UTerm", "");
    while let Some(start) = out.find("<<") {
        // Decode <<<, B1>, B0>, B1> into a decimal number.
        let bytes: Vec<char> = out[start..].chars().collect();
        let mut depth = 0;
        let mut end = 0;
        let mut n: u128 = 0;
        let mut ok = true;
        let mut i = 0;
        while i < bytes.len() {
            match bytes[i] {
                '<' => depth += 1,
                '>' => {
                    depth -= 1;
                    if depth == 0 {
                        end = i + 1;
                        break;
                    }
                }
                'B' => {
                    let d = bytes.get(i + 1).and_then(|c| c.to_digit(2));
                    match d {
                        Some(d) => n = n * 2 + d as u128,
                        None => ok = false,
                    }
                }
                ',' | ' ' | '0' | '1' => {}
                _ => {
                    ok = false;
                    break;
                }
            }
            i += 1;
        }
        if !ok || end == 0 {
            break;
        }
        // The outermost pair belongs to the number only if it has its own bit.
        let text: String = bytes[..end].iter().collect();
        out = out.replacen(&text, &format!("N{n}"), 1);
    }
    out
}

#[macro_export]
macro_rules! entries {
    ($($t:ty),* $(,)?) => { vec![$($crate::entry::<$t>()),*] };
}
