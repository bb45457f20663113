//! The fixed part of the table of types.
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, B256, U128, U256};
use codec::{entries, Entry};
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::sync::Arc;
#[allow(unused_imports)]
use typenum::*;

type S1<T> = SmallVec<[T; 1]>;
type S4<T> = SmallVec<[T; 4]>;
type S8<T> = SmallVec<[T; 8]>;
type V = Vec<u8>;
type P30 = Exp<U2, U30>;
type P40 = Exp<U2, U40>;
/// 2^64 - 1, and the lengths just below and above the last multiple of eight.
type Top = Sum<Exp<U2, U63>, Sub1<Exp<U2, U63>>>;
type Top6 = Diff<Top, U6>;
type Top7 = Diff<Top, U7>;
type Top8 = Diff<Top, U8>;
type P63 = Exp<U2, U63>;

pub fn scalars() -> Vec<Entry> {
    entries![
        u8, u16, u32, u64, u128, usize, bool, NonZeroUsize, U128, U256, Address, B256, Bloom, Bytes,
        [u8; 0], [u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 7], [u8; 8], [u8; 16], [u8; 20], [u8; 31],
        [u8; 32], [u8; 33], [u8; 48], [u8; 64], [u8; 96], [u8; 127], [u8; 128], [u8; 129], [u8; 255],
        [u8; 256], [u8; 257], [u8; 1024], [u8; 4096],
        FixedBytes<0>, FixedBytes<1>, FixedBytes<2>, FixedBytes<3>, FixedBytes<4>, FixedBytes<5>,
        FixedBytes<8>, FixedBytes<16>, FixedBytes<20>, FixedBytes<31>, FixedBytes<33>, FixedBytes<48>,
        FixedBytes<64>, FixedBytes<96>, FixedBytes<128>, FixedBytes<255>, FixedBytes<256>, FixedBytes<1000>,
    ]
}

pub fn lists() -> Vec<Entry> {
    entries![
        Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<usize>, Vec<bool>, Vec<NonZeroUsize>,
        Vec<U128>, Vec<U256>, Vec<Address>, Vec<B256>, Vec<Bloom>, Vec<Bytes>, Vec<[u8; 1]>, Vec<[u8; 3]>,
        Vec<[u8; 4]>, Vec<[u8; 48]>, Vec<FixedBytes<3>>, Vec<FixedBytes<96>>,
        Vec<Vec<u8>>, Vec<Vec<u16>>, Vec<Vec<u64>>, Vec<Vec<Vec<u8>>>, Vec<Vec<Vec<Vec<u16>>>>,
        Vec<Vec<bool>>, Vec<Vec<Vec<bool>>>,
        Vec<Option<u8>>, Vec<Option<Vec<u8>>>, Vec<Option<bool>>, Vec<Arc<u32>>, Vec<Arc<V>>,
        Vec<(u8, u16)>, Vec<(u8, V)>, Vec<(V, V)>, Vec<(bool, u8, bool)>,
        Vec<BitVector<U3>>, Vec<BitVector<U9>>, Vec<BitList<U9>>, Vec<BitVectorDynamic>,
        SmallVec<[u8; 0]>, S1<u8>, S4<u8>, S8<u8>, S1<u16>, S4<u64>, S8<B256>, S1<bool>, S4<V>, S8<V>, S1<V>,
        S4<S4<u16>>, S8<S1<V>>, Vec<S4<u32>>, Vec<S8<[u8; 1]>>, S4<Option<u16>>, S4<(u8, V)>, S8<Bytes>,
        Option<u8>, Option<u16>, Option<u64>, Option<bool>, Option<U256>, Option<B256>, Option<V>, Option<Bytes>,
        Option<Option<u8>>, Option<Option<Option<V>>>, Option<Vec<V>>, Option<(u8, V)>, Option<Arc<u16>>,
        Option<BitList<U8>>, Option<[u8; 0]>, Option<Option<[u8; 0]>>, Option<BitVector<U0>>,
        Arc<u8>, Arc<u64>, Arc<V>, Arc<Vec<V>>, Arc<Option<u8>>, Arc<(u8, V)>, Arc<Arc<u16>>, Arc<B256>,
        Arc<BTreeMap<u8, V>>, Arc<Bytes>,
    ]
}


pub fn maps() -> Vec<Entry> {
    entries![
        BTreeMap<u8, u8>, BTreeMap<u16, u32>, BTreeMap<u64, V>, BTreeMap<V, u8>, BTreeMap<V, V>,
        BTreeMap<Bytes, u16>, BTreeMap<U256, B256>, BTreeMap<bool, u8>, BTreeMap<bool, V>,
        BTreeMap<u32, Option<u8>>, BTreeMap<Option<u8>, u8>, BTreeMap<(u8, u16), u8>, BTreeMap<(u8, V), V>,
        BTreeMap<u8, BTreeMap<u8, u8>>, BTreeMap<Vec<V>, Vec<V>>, BTreeMap<u8, [u8; 0]>, BTreeMap<[u8; 0], u8>,
        BTreeMap<Address, U256>, BTreeMap<u8, BTreeSet<u16>>, BTreeMap<Arc<u16>, Arc<V>>, BTreeMap<u8, BitList<U16>>,
        BTreeMap<[u8; 0], V>, Vec<BTreeMap<u8, u8>>, Option<BTreeMap<u8, V>>,
        BTreeSet<u8>, BTreeSet<u16>, BTreeSet<u64>, BTreeSet<bool>, BTreeSet<U256>, BTreeSet<V>, BTreeSet<Bytes>,
        BTreeSet<Vec<V>>, BTreeSet<Option<u8>>, BTreeSet<(u8, u8)>, BTreeSet<(u8, V)>, BTreeSet<BTreeSet<u8>>,
        BTreeSet<B256>, BTreeSet<S4<u8>>, BTreeSet<[u8; 3]>, Vec<BTreeSet<u8>>, (BTreeSet<u8>, BTreeMap<u8, u8>),
        BTreeSet<NonZeroUsize>, BTreeMap<NonZeroUsize, NonZeroUsize>,
    ]
}

pub fn bitfields() -> Vec<Entry> {
    entries![
        BitVector<U0>, BitVector<U1>, BitVector<U2>, BitVector<U3>, BitVector<U4>, BitVector<U5>, BitVector<U6>,
        BitVector<U7>, BitVector<U8>, BitVector<U9>, BitVector<U15>, BitVector<U16>, BitVector<U17>, BitVector<U24>,
        BitVector<U31>, BitVector<U32>, BitVector<U33>, BitVector<U63>, BitVector<U64>, BitVector<U65>,
        BitVector<U100>, BitVector<U127>, BitVector<typenum::U128>, BitVector<U255>, BitVector<typenum::U256>, BitVector<U512>,
        BitVector<U1023>, BitVector<U1024>, BitVector<Sum<U1024, U1>>, BitVector<U2048>, BitVector<U4096>,
        BitVector<U65536>,
        BitList<U0>, BitList<U1>, BitList<U2>, BitList<U3>, BitList<U4>, BitList<U5>, BitList<U6>, BitList<U7>,
        BitList<U8>, BitList<U9>, BitList<U15>, BitList<U16>, BitList<U17>, BitList<U24>, BitList<U31>, BitList<U32>,
        BitList<U33>, BitList<U63>, BitList<U64>, BitList<U65>, BitList<U100>, BitList<U127>, BitList<typenum::U128>,
        BitList<U255>, BitList<typenum::U256>, BitList<U512>, BitList<U1023>, BitList<U1024>, BitList<Sum<U1024, U1>>,
        BitList<U2048>, BitList<U4096>, BitList<U65536>, BitList<P30>, BitList<P40>, BitVectorDynamic,
        (BitVector<U4>, BitVector<U12>), (BitList<U4>, BitList<U12>), (BitVectorDynamic, BitVector<U1>),
    ]
}

pub fn tuples() -> Vec<Entry> {
    // Every arity: all fixed; all variable; one variable at each position; one fixed at each position.
    let mut v = entries![
        (u8, u16), (u8, V), (V, u8), (V, V), (V, Vec<V>), (bool, bool), (u64, B256), ([u8; 0], u8), (u8, [u8; 0]),
        ([u8; 0], V), ([u8; 0], [u8; 0]), (Option<u8>, Option<V>), ((u8, V), (u16, u32)), ((V, V), V), (V, (V, V)),
        (Arc<V>, Arc<u8>), (Bytes, Bytes), (S4<u8>, S1<V>), (u8, (u8, (u8, (u8, V)))),
        (u8, u16, u32), (V, u16, u32), (u8, V, u32), (u8, u16, V), (V, V, u8), (V, u8, V), (u8, V, V), (V, V, V),
    ];
    macro_rules! F {
        (a) => { u8 }; (b) => { u16 }; (c) => { u32 }; (d) => { bool }; (e) => { u64 }; (f) => { [u8; 3] };
        (g) => { u8 }; (h) => { u128 }; (i) => { u16 }; (j) => { B256 }; (k) => { bool }; (l) => { u32 };
    }
    macro_rules! Var {
        (a) => { V }; (b) => { Vec<u16> }; (c) => { Option<u8> }; (d) => { V }; (e) => { Bytes }; (f) => { Vec<V> };
        (g) => { V }; (h) => { BitList<U9> }; (i) => { S4<u16> }; (j) => { V }; (k) => { Vec<u32> }; (l) => { V };
    }
    macro_rules! arity {
        // Marks each position in turn.
        (@ [$($done:ident)*] $next:ident $($rest:ident)*) => {
            v.extend(entries![
                ($(F![$done],)* V, $(F![$rest],)*),
                ($(Var![$done],)* u16, $(Var![$rest],)*)
            ]);
            arity!(@ [$($done)* $next] $($rest)*)
        };
        (@ [$($done:ident)*]) => {
            v.extend(entries![($(F![$done],)*), ($(Var![$done],)*)]);
        };
        ($($t:ident)*) => { arity!(@ [] $($t)*) };
    }
    arity!(a b c d);
    arity!(a b c d e);
    arity!(a b c d e f);
    arity!(a b c d e f g);
    arity!(a b c d e f g h);
    arity!(a b c d e f g h i);
    arity!(a b c d e f g h i j);
    arity!(a b c d e f g h i j k);
    arity!(a b c d e f g h i j k l);
    v
}

/// Types with zero-length items: decoding must not panic, nothing else is claimed.
#[allow(dead_code)]
pub fn degenerate() -> Vec<Entry> {
    entries![
        Vec<[u8; 0]>, Vec<FixedBytes<0>>, SmallVec<[[u8; 0]; 2]>, SmallVec<[FixedBytes<0>; 8]>,
        BTreeSet<[u8; 0]>, BTreeSet<FixedBytes<0>>, BTreeMap<[u8; 0], [u8; 0]>, Vec<([u8; 0], [u8; 0])>,
        Vec<Vec<[u8; 0]>>, Option<Vec<[u8; 0]>>, (u8, Vec<[u8; 0]>), Arc<Vec<[u8; 0]>>, Vec<Arc<[u8; 0]>>,
        BTreeMap<FixedBytes<0>, [u8; 0]>, BTreeMap<u8, Vec<[u8; 0]>>, BTreeSet<Vec<FixedBytes<0>>>,
        Vec<((([u8; 0], [u8; 0]), FixedBytes<0>), [u8; 0])>,
    ]
}

/// Types whose smallest or largest value is far larger than any input here.
#[allow(dead_code)]
pub fn huge() -> Vec<Entry> {
    entries![
        BitVector<P30>, BitVector<P40>, BitList<Exp<U2, U60>>, Option<BitVector<P30>>, Vec<BitVector<P30>>,
        Vec<Option<BitVector<P40>>>, (u8, BitVector<P30>), (V, BitVector<P40>), Arc<BitVector<P30>>,
        SmallVec<[BitVector<P40>; 2]>, BTreeMap<u8, BitVector<P30>>, BTreeMap<u8, BitList<P40>>, Vec<BitList<P40>>,
        (BitList<P30>, BitList<Exp<U2, U60>>), Option<Option<BitVector<P40>>>, [u8; 65536], Vec<[u8; 65536]>,
        Option<[u8; 65536]>, (V, FixedBytes<65536>), BTreeMap<u16, [u8; 65536]>, SmallVec<[[u8; 65536]; 1]>,
        BitVector<Top>, BitVector<Top6>, BitVector<Top7>, BitVector<Top8>, BitVector<P63>, Vec<BitVector<Top>>,
        Option<BitVector<Top>>, Arc<BitVector<Top6>>, (u8, BitVector<Top>), (V, BitVector<Top>, u16),
        BTreeMap<u8, BitVector<Top>>, SmallVec<[BitVector<Top6>; 2]>, BTreeMap<u16, BitVector<Top6>>,
        (BitVector<Top>, BitVector<P63>, BitVector<Top7>), BitList<Top>, Vec<BitList<Top>>, (BitList<Top6>, u8),
    ]
}

/// Every type of this file, without duplicates.
pub fn curated() -> Vec<Entry> {
    unique(scalars().into_iter().chain(lists()).chain(maps()).chain(bitfields()).chain(tuples()))
}

pub fn unique(it: impl Iterator<Item = Entry>) -> Vec<Entry> {
    let mut seen = std::collections::HashSet::new();
    it.filter(|e| seen.insert(e.name.clone())).collect()
}
