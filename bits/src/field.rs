//! One object-safe interface to the bitfields of every kind and capacity.
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use smallvec::SmallVec;
use ssz::{BitfieldError, Decode, Encode};
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use typenum::Unsigned;

pub use ssz::{Dynamic, Fixed, Variable};
use ssz::Bitfield;

pub type Bytes = SmallVec<[u8; 128]>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    List,
    Vector,
    Dynamic,
}

/// Result of an operation that may be refused.
pub type Made = Result<Box<dyn Field>, String>;

pub struct Ty {
    pub name: String,
    pub kind: Kind,
    /// The capacity N (0 for the dynamic bitvector).
    pub n: u64,
    pub ops: Box<dyn Ops>,
}

impl Ty {
    /// The number of bits a bitlist may have, the number a bitvector has.
    pub fn cap(&self) -> usize {
        self.n as usize
    }
}

/// What the type offers.
pub trait Ops: Send + Sync {
    /// with_capacity, new
    fn new(&self, len: usize) -> Made;
    fn default(&self) -> Option<Box<dyn Field>>;
    /// max_len, capacity
    fn bound(&self) -> Option<usize>;
    /// from_bytes; with the matching length for the dynamic bitvector
    fn from_bytes(&self, bytes: Bytes) -> Made;
    fn from_bytes_with_len(&self, bytes: Bytes, len: usize) -> Option<Made>;
    fn decode(&self, bytes: &[u8]) -> Made;
    fn meta(&self) -> (bool, bool, usize, usize);
    fn json_str(&self, s: &str) -> Made;
    fn json_reader(&self, s: &str) -> Made;
    fn json_value(&self, s: &str) -> Made;
    fn plain(&self, s: &str, how: u8) -> Made;
    #[cfg(feature = "arb")]
    fn arbitrary(&self, u: &mut arbitrary::Unstructured) -> Made;
    #[cfg(feature = "arb")]
    fn arbitrary_rest(&self, u: arbitrary::Unstructured) -> Made;
    #[cfg(feature = "arb")]
    fn hint(&self) -> (usize, Option<usize>);
}

pub struct Seen {
    pub len: usize,
    pub empty: bool,
    pub bits: Vec<bool>,
    pub after_end: bool,
    pub gets: Vec<(usize, Option<bool>)>,
    pub nth: Vec<(usize, Option<bool>)>,
    pub count: usize,
    pub last: Option<bool>,
    pub hint: (usize, Option<usize>),
    pub highest: Option<usize>,
    pub zero: bool,
    pub ones: usize,
    pub slice: Vec<u8>,
    pub raw: Vec<u8>,
    pub into: Vec<u8>,
    pub ssz: Vec<u8>,
    pub ssz_len: usize,
    pub appended: Vec<u8>,
}

pub trait Field: Any + Send {
    fn any(&self) -> &dyn Any;
    fn dup(&self) -> Box<dyn Field>;
    /// clone_from
    fn assign(&mut self, other: &dyn Field);
    fn set(&mut self, i: usize, v: bool) -> Result<(), String>;
    fn get(&self, i: usize) -> Option<bool>;
    fn len(&self) -> usize;
    fn shift_up(&mut self, n: usize) -> Result<(), String>;
    fn difference(&self, other: &dyn Field) -> Box<dyn Field>;
    fn difference_inplace(&mut self, other: &dyn Field);
    fn union(&self, other: &dyn Field) -> Made;
    fn intersection(&self, other: &dyn Field) -> Made;
    fn is_subset(&self, other: &dyn Field) -> Option<bool>;
    fn equal(&self, other: &dyn Field) -> (bool, bool);
    fn hashes(&self) -> (u64, Vec<u8>);
    fn see(&self, at: &[usize]) -> Seen;
    fn bits(&self) -> Vec<bool>;
    fn slice(&self) -> Vec<u8>;
    fn raw(&self) -> Vec<u8>;
    fn out(&self) -> Vec<u8>;
    fn ssz(&self) -> Vec<u8>;
    fn json(&self) -> Result<String, String>;
    fn json_value(&self) -> Result<serde_json::Value, String>;
    fn json_bytes(&self) -> Result<Vec<u8>, String>;
    fn plain(&self, human: bool) -> Result<String, String>;
}

pub trait Behave: Debug + Sized + Send + Sync + 'static {
    fn new(len: usize) -> Result<Bitfield<Self>, BitfieldError>;
    fn default() -> Option<Bitfield<Self>>;
    fn bound() -> Option<usize>;
    fn from_bytes(b: Bytes) -> Result<Bitfield<Self>, BitfieldError>;
    fn from_bytes_with_len(b: Bytes, len: usize) -> Option<Result<Bitfield<Self>, BitfieldError>>;
    fn into_bytes(b: Bitfield<Self>) -> Bytes;
    fn union(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Result<Bitfield<Self>, BitfieldError>;
    fn intersection(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Result<Bitfield<Self>, BitfieldError>;
    fn is_subset(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Option<bool>;
}

impl<N: Unsigned + Clone + Debug + Send + Sync + 'static> Behave for Variable<N> {
    fn new(len: usize) -> Result<Bitfield<Self>, BitfieldError> {
        Bitfield::<Self>::with_capacity(len)
    }
    fn default() -> Option<Bitfield<Self>> {
        None
    }
    fn bound() -> Option<usize> {
        Some(Bitfield::<Self>::max_len())
    }
    fn from_bytes(b: Bytes) -> Result<Bitfield<Self>, BitfieldError> {
        Bitfield::<Self>::from_bytes(b)
    }
    fn from_bytes_with_len(_: Bytes, _: usize) -> Option<Result<Bitfield<Self>, BitfieldError>> {
        None
    }
    fn into_bytes(b: Bitfield<Self>) -> Bytes {
        b.into_bytes()
    }
    fn union(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Result<Bitfield<Self>, BitfieldError> {
        Ok(a.union(b))
    }
    fn intersection(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Result<Bitfield<Self>, BitfieldError> {
        Ok(a.intersection(b))
    }
    fn is_subset(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Option<bool> {
        Some(a.is_subset(b))
    }
}

impl<N: Unsigned + Clone + Debug + Send + Sync + 'static> Behave for Fixed<N> {
    fn new(_: usize) -> Result<Bitfield<Self>, BitfieldError> {
        Ok(Bitfield::<Self>::new())
    }
    fn default() -> Option<Bitfield<Self>> {
        Some(Default::default())
    }
    fn bound() -> Option<usize> {
        Some(Bitfield::<Self>::capacity())
    }
    fn from_bytes(b: Bytes) -> Result<Bitfield<Self>, BitfieldError> {
        Bitfield::<Self>::from_bytes(b)
    }
    fn from_bytes_with_len(_: Bytes, _: usize) -> Option<Result<Bitfield<Self>, BitfieldError>> {
        None
    }
    fn into_bytes(b: Bitfield<Self>) -> Bytes {
        b.into_bytes()
    }
    fn union(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Result<Bitfield<Self>, BitfieldError> {
        Ok(a.union(b))
    }
    fn intersection(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Result<Bitfield<Self>, BitfieldError> {
        Ok(a.intersection(b))
    }
    fn is_subset(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Option<bool> {
        Some(a.is_subset(b))
    }
}

impl Behave for Dynamic {
    fn new(len: usize) -> Result<Bitfield<Self>, BitfieldError> {
        Bitfield::<Self>::new(len)
    }
    fn default() -> Option<Bitfield<Self>> {
        None
    }
    fn bound() -> Option<usize> {
        None
    }
    fn from_bytes(b: Bytes) -> Result<Bitfield<Self>, BitfieldError> {
        let n = b.len() * 8;
        Bitfield::<Self>::from_bytes_with_len(b, n)
    }
    fn from_bytes_with_len(b: Bytes, len: usize) -> Option<Result<Bitfield<Self>, BitfieldError>> {
        Some(Bitfield::<Self>::from_bytes_with_len(b, len))
    }
    fn into_bytes(b: Bitfield<Self>) -> Bytes {
        b.into_bytes()
    }
    fn union(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Result<Bitfield<Self>, BitfieldError> {
        a.union(b)
    }
    fn intersection(a: &Bitfield<Self>, b: &Bitfield<Self>) -> Result<Bitfield<Self>, BitfieldError> {
        a.intersection(b)
    }
    fn is_subset(_: &Bitfield<Self>, _: &Bitfield<Self>) -> Option<bool> {
        None
    }
}

/// Records what is written into it.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

fn made<B: Field, E: Debug>(r: Result<B, E>) -> Made {
    match r {
        Ok(b) => Ok(Box::new(b)),
        Err(e) => Err(format!("{e:?}")),
    }
}

fn same<T: 'static>(x: &dyn Field) -> &Bitfield<T> {
    x.any().downcast_ref().expect("operands of one type")
}

macro_rules! field_impl {
    ([$($g:tt)*] $t:ty) => {
impl $($g)* Field for Bitfield<$t> {
    fn any(&self) -> &dyn Any {
        self
    }
    fn dup(&self) -> Box<dyn Field> {
        Box::new(self.clone())
    }
    fn assign(&mut self, other: &dyn Field) {
        self.clone_from(same(other))
    }
    fn set(&mut self, i: usize, v: bool) -> Result<(), String> {
        Bitfield::set(self, i, v).map_err(|e| format!("{e:?}"))
    }
    fn get(&self, i: usize) -> Option<bool> {
        Bitfield::get(self, i).ok()
    }
    fn len(&self) -> usize {
        Bitfield::len(self)
    }
    fn shift_up(&mut self, n: usize) -> Result<(), String> {
        Bitfield::shift_up(self, n).map_err(|e| format!("{e:?}"))
    }
    fn difference(&self, other: &dyn Field) -> Box<dyn Field> {
        Box::new(Bitfield::difference(self, same(other)))
    }
    fn difference_inplace(&mut self, other: &dyn Field) {
        Bitfield::difference_inplace(self, same(other))
    }
    fn union(&self, other: &dyn Field) -> Made {
        made(<$t as Behave>::union(self, same(other)))
    }
    fn intersection(&self, other: &dyn Field) -> Made {
        made(<$t as Behave>::intersection(self, same(other)))
    }
    fn is_subset(&self, other: &dyn Field) -> Option<bool> {
        <$t as Behave>::is_subset(self, same(other))
    }
    fn equal(&self, other: &dyn Field) -> (bool, bool) {
        let o = same::<$t>(other);
        #[allow(clippy::nonminimal_bool)]
        (self == o, !(self != o))
    }
    fn hashes(&self) -> (u64, Vec<u8>) {
        let mut a = DefaultHasher::new();
        self.hash(&mut a);
        let mut b = Tape::default();
        self.hash(&mut b);
        (a.finish(), b.0)
    }
    fn see(&self, at: &[usize]) -> Seen {
        let mut it = self.iter();
        let mut bits = vec![];
        // A broken iterator may never end.
        let most = Bitfield::len(self).saturating_add(70);
        while let Some(b) = it.next() {
            bits.push(b);
            if bits.len() > most {
                break;
            }
        }
        let after_end = it.next().is_some() || it.next().is_some();
        let mut appended = vec![0xa5, 0x5a, 1];
        self.ssz_append(&mut appended);
        Seen {
            len: Bitfield::len(self),
            empty: self.is_empty(),
            gets: at.iter().map(|i| (*i, Bitfield::get(self, *i).ok())).collect(),
            nth: at
                .iter()
                .take(8)
                .chain(at.iter().skip(16).take(if bits.len() < 70 { 70 } else { 3 }))
                .filter(|i| **i < 1 << 20)
                .map(|i| (*i, self.iter().nth(*i)))
                .collect(),
            count: self.iter().take(most).count(),
            last: self.iter().take(most).last(),
            hint: self.iter().size_hint(),
            bits,
            after_end,
            highest: self.highest_set_bit(),
            zero: self.is_zero(),
            ones: self.num_set_bits(),
            slice: self.as_slice().to_vec(),
            raw: self.clone().into_raw_bytes().to_vec(),
            into: <$t as Behave>::into_bytes(self.clone()).to_vec(),
            ssz: self.as_ssz_bytes(),
            ssz_len: self.ssz_bytes_len(),
            appended,
        }
    }
    fn bits(&self) -> Vec<bool> {
        self.iter().take(Bitfield::len(self).saturating_add(70)).collect()
    }
    fn slice(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
    fn raw(&self) -> Vec<u8> {
        self.clone().into_raw_bytes().to_vec()
    }
    fn out(&self) -> Vec<u8> {
        <$t as Behave>::into_bytes(self.clone()).to_vec()
    }
    fn ssz(&self) -> Vec<u8> {
        self.as_ssz_bytes()
    }
    fn json(&self) -> Result<String, String> {
        serde_json::to_string(self).map_err(|e| e.to_string())
    }
    fn json_value(&self) -> Result<serde_json::Value, String> {
        serde_json::to_value(self).map_err(|e| e.to_string())
    }
    fn json_bytes(&self) -> Result<Vec<u8>, String> {
        serde_json::to_vec_pretty(self).map_err(|e| e.to_string())
    }
    fn plain(&self, human: bool) -> Result<String, String> {
        self.serialize(crate::plain::Capture { human }).map_err(|e| e.to_string())
    }
}
    };
}

field_impl!([<N: Unsigned + Clone + Debug + Send + Sync + 'static>] Variable<N>);
field_impl!([<N: Unsigned + Clone + Debug + Send + Sync + 'static>] Fixed<N>);
field_impl!([] Dynamic);

struct TyOps<T>(std::marker::PhantomData<T>);

#[cfg(feature = "arb")]
macro_rules! arb_ops {
    () => {
        fn arbitrary(&self, u: &mut arbitrary::Unstructured) -> Made {
            T::arb(u)
        }
        fn arbitrary_rest(&self, u: arbitrary::Unstructured) -> Made {
            T::arb_rest(u)
        }
        fn hint(&self) -> (usize, Option<usize>) {
            T::arb_hint()
        }
    };
}
#[cfg(not(feature = "arb"))]
macro_rules! arb_ops {
    () => {};
}

impl<T: Behave + Arb> Ops for TyOps<T>
where
    Bitfield<T>: Field + Encode + Decode + DeserializeOwned,
{
    fn new(&self, len: usize) -> Made {
        made(T::new(len))
    }
    fn default(&self) -> Option<Box<dyn Field>> {
        T::default().map(|b| Box::new(b) as Box<dyn Field>)
    }
    fn bound(&self) -> Option<usize> {
        T::bound()
    }
    fn from_bytes(&self, bytes: Bytes) -> Made {
        made(T::from_bytes(bytes))
    }
    fn from_bytes_with_len(&self, bytes: Bytes, len: usize) -> Option<Made> {
        T::from_bytes_with_len(bytes, len).map(made)
    }
    fn decode(&self, bytes: &[u8]) -> Made {
        made(Bitfield::<T>::from_ssz_bytes(bytes))
    }
    fn meta(&self) -> (bool, bool, usize, usize) {
        (
            <Bitfield<T> as Encode>::is_ssz_fixed_len(),
            <Bitfield<T> as Decode>::is_ssz_fixed_len(),
            <Bitfield<T> as Encode>::ssz_fixed_len(),
            <Bitfield<T> as Decode>::ssz_fixed_len(),
        )
    }
    fn json_str(&self, s: &str) -> Made {
        made(serde_json::from_str::<Bitfield<T>>(s))
    }
    fn json_reader(&self, s: &str) -> Made {
        made(serde_json::from_reader::<_, Bitfield<T>>(s.as_bytes()))
    }
    fn json_value(&self, s: &str) -> Made {
        made(serde_json::from_value::<Bitfield<T>>(serde_json::Value::String(s.to_string())))
    }
    fn plain(&self, s: &str, how: u8) -> Made {
        made(Bitfield::<T>::deserialize(crate::plain::Plain { s, how }))
    }
    arb_ops!();
}

/// Generation, for the kinds that have it.
#[cfg(feature = "arb")]
pub trait Arb {
    fn arb(u: &mut arbitrary::Unstructured) -> Made;
    fn arb_rest(u: arbitrary::Unstructured) -> Made;
    fn arb_hint() -> (usize, Option<usize>);
}
#[cfg(not(feature = "arb"))]
pub trait Arb {}

macro_rules! arb_kind {
    ($k:ident) => {
        #[cfg(feature = "arb")]
        impl<N: Unsigned + Clone + Debug + Send + Sync + 'static> Arb for $k<N> {
            fn arb(u: &mut arbitrary::Unstructured) -> Made {
                made(<Bitfield<Self> as arbitrary::Arbitrary>::arbitrary(u))
            }
            fn arb_rest(u: arbitrary::Unstructured) -> Made {
                made(<Bitfield<Self> as arbitrary::Arbitrary>::arbitrary_take_rest(u))
            }
            fn arb_hint() -> (usize, Option<usize>) {
                <Bitfield<Self> as arbitrary::Arbitrary>::size_hint(0)
            }
        }
        #[cfg(not(feature = "arb"))]
        impl<N: Unsigned + Clone + Debug + Send + Sync + 'static> Arb for $k<N> {}
    };
}
arb_kind!(Variable);
arb_kind!(Fixed);
#[cfg(feature = "arb")]
impl Arb for Dynamic {
    fn arb(_: &mut arbitrary::Unstructured) -> Made {
        unreachable!()
    }
    fn arb_rest(_: arbitrary::Unstructured) -> Made {
        unreachable!()
    }
    fn arb_hint() -> (usize, Option<usize>) {
        unreachable!()
    }
}
#[cfg(not(feature = "arb"))]
impl Arb for Dynamic {}

pub fn ty<T: Behave + Arb>(kind: Kind, n: u64) -> Ty
where
    Bitfield<T>: Field + Encode + Decode + DeserializeOwned,
{
    let name = match kind {
        Kind::List => format!("BitList<{n}>"),
        Kind::Vector => format!("BitVector<{n}>"),
        Kind::Dynamic => "BitVectorDynamic".to_string(),
    };
    Ty { name, kind, n, ops: Box::new(TyOps::<T>(std::marker::PhantomData)) }
}

pub struct Resize {
    pub from: u64,
    pub to: u64,
    pub run: fn(&dyn Field) -> Made,
}

pub fn resize<N, M>(f: &dyn Field) -> Made
where
    N: Unsigned + Clone + Debug + Send + Sync + 'static,
    M: Unsigned + Clone + Debug + Send + Sync + 'static,
{
    made(same::<Variable<N>>(f).resize::<M>())
}
