#[allow(unused_imports)]
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, B256, U128, U256};
use codec::{codecs::*, Heap, Model};
use engine::schema::*;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use ssz_derive::{Decode, Encode};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::sync::Arc;
