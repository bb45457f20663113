//! Field codecs for `#[ssz(with = "...")]`, written for the harness. Each states its schema in `model`.
use crate::Heap;
use engine::schema::*;
use ssz::DecodeError;

macro_rules! codec {
    ($m:ident, $t:ty, $fixed:expr, $len:expr, $schema:expr,
     len($x1:ident) $lenof:expr, enc($x2:ident, $buf:ident) $enc:expr, dec($b:ident) $dec:expr,
     from($v:ident) $from:expr, to($x3:ident) $to:expr, $heap:expr) => {
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            pub mod encode {
                #[allow(unused_imports)]
                use super::*;
                pub fn is_ssz_fixed_len() -> bool {
                    $fixed
                }
                pub fn ssz_fixed_len() -> usize {
                    $len
                }
                pub fn ssz_bytes_len($x1: &$t) -> usize {
                    let _ = $x1;
                    $lenof
                }
                pub fn ssz_append($x2: &$t, $buf: &mut Vec<u8>) {
                    $enc
                }
            }
            pub mod decode {
                #[allow(unused_imports)]
                use super::*;
                pub fn is_ssz_fixed_len() -> bool {
                    $fixed
                }
                pub fn ssz_fixed_len() -> usize {
                    $len
                }
                pub fn from_ssz_bytes($b: &[u8]) -> Result<$t, DecodeError> {
                    $dec
                }
            }
            pub mod model {
                use super::*;
                pub fn schema() -> Schema {
                    $schema
                }
                pub fn from_val($v: &Val) -> $t {
                    $from
                }
                pub fn to_val($x3: &$t) -> Val {
                    $to
                }
                pub fn heap() -> Heap {
                    $heap
                }
            }
        }
    };
}

fn bad<T>(why: &str) -> Result<T, DecodeError> {
    Err(DecodeError::BytesInvalid(why.into()))
}

codec!(be_u32, u32, true, 4, Schema::UintBe(4),
    len(x) 4,
    enc(x, buf) buf.extend_from_slice(&x.to_be_bytes()),
    dec(b) if b.len() == 4 { Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]])) } else { bad("be_u32") },
    from(v) v.as_u128() as u32, to(x) Val::int(*x as u128), Heap::leaf());

// Values are below 2^24.
codec!(u24, u32, true, 3, Schema::Uint(3),
    len(x) 3,
    enc(x, buf) buf.extend_from_slice(&x.to_le_bytes()[..3]),
    dec(b) if b.len() == 3 { Ok(u32::from_le_bytes([b[0], b[1], b[2], 0])) } else { bad("u24") },
    from(v) v.as_u128() as u32, to(x) Val::int(*x as u128), Heap::leaf());

codec!(var_u64, u64, false, 4, Schema::UintVar,
    len(x) (64 - x.leading_zeros() as usize).div_ceil(8),
    enc(x, buf) { let n = ssz_bytes_len(x); buf.extend_from_slice(&x.to_le_bytes()[..n]) },
    dec(b) if b.len() > 8 || b.last() == Some(&0) { bad("var_u64") } else {
        let mut a = [0u8; 8];
        a[..b.len()].copy_from_slice(b);
        Ok(u64::from_le_bytes(a))
    },
    from(v) v.as_u128() as u64, to(x) Val::int(*x as u128), Heap::leaf());

// A Vec of exactly five bytes, as a fixed-size part.
codec!(five, Vec<u8>, true, 5, Schema::ByteVec(5),
    len(x) 5,
    enc(x, buf) { let mut a = x.clone(); a.resize(5, 0); buf.extend_from_slice(&a) },
    dec(b) if b.len() == 5 { Ok(b.to_vec()) } else { bad("five") },
    from(v) v.bytes().to_vec(),
    to(x) { let mut a = x.clone(); a.resize(5, 0); Val::Bytes(a) }, Heap::bytes());

codec!(flag, bool, true, 1, Schema::Bool,
    len(x) 1,
    enc(x, buf) buf.push(*x as u8),
    dec(b) match b { [0] => Ok(false), [1] => Ok(true), _ => bad("flag") },
    from(v) v.bool(), to(x) Val::Bool(*x), Heap::leaf());

codec!(rev, Vec<u8>, false, 4, Schema::ByteList,
    len(x) x.len(),
    enc(x, buf) buf.extend_from_slice(x),
    dec(b) Ok(b.to_vec()),
    from(v) v.bytes().to_vec(), to(x) Val::Bytes(x.clone()), Heap::bytes());

codec!(le_list, Vec<u16>, false, 4, Schema::List(Box::new(Schema::Uint(2))),
    len(x) x.len() * 2,
    enc(x, buf) for y in x { buf.extend_from_slice(&y.to_le_bytes()) },
    dec(b) if b.len() % 2 == 0 { Ok(b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()) } else { bad("le_list") },
    from(v) v.seq().iter().map(|x| x.as_u128() as u16).collect(),
    to(x) Val::Seq(x.iter().map(|y| Val::int(*y as u128)).collect()), Heap::list::<u16>());

/// A legacy option codec module with its schema.
#[macro_export]
macro_rules! legacy_codec {
    ($m:ident, $t:ty) => {
        pub mod $m {
            #[allow(unused_imports)]
            use super::*;
            ssz::four_byte_option_impl!(imp, $t);
            pub use imp::{decode, encode};
            pub mod model {
                #[allow(unused_imports)]
                use super::*;
                pub fn schema() -> engine::Schema {
                    engine::Schema::Legacy(Box::new(<$t as codec::Model>::schema()))
                }
                pub fn from_val(v: &engine::Val) -> Option<$t> {
                    v.union().1.map(<$t as codec::Model>::from_val)
                }
                pub fn to_val(x: &Option<$t>) -> engine::Val {
                    match x {
                        None => engine::Val::Union(0, None),
                        Some(x) => engine::Val::Union(1, Some(Box::new(codec::Model::to_val(x)))),
                    }
                }
                pub fn heap() -> codec::Heap {
                    <$t as codec::Model>::heap()
                }
            }
        }
    };
}
