//! The table of types: a fixed part, and a part generated by build.rs.
use crate::curated::{curated, unique};
use codec::Entry;

#[allow(unused_imports, dead_code, clippy::all)]
pub mod generated {
    use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, B256, U128, U256};
    use codec::{codecs::*, Heap, Model};
    use engine::schema::*;
    use smallvec::SmallVec;
    use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
    use ssz_derive::{Decode, Encode};
    use std::collections::{BTreeMap, BTreeSet};
    use std::num::NonZeroUsize;
    use std::sync::Arc;
    include!(concat!(env!("OUT_DIR"), "/gen.rs"));
}

pub fn all() -> Vec<Entry> {
    unique(curated().into_iter().chain(generated::table()))
}
