//! Inputs and encodings of gigabytes that cost next to nothing: a zeroed block of which few pages are written.
use ssz::{Decode, DecodeError, Encode};
use std::sync::{Mutex, MutexGuard, OnceLock};

pub const GIANT: usize = (1 << 32) + (1 << 16);

/// The block. Whoever writes to it puts the zeros back.
pub fn giant() -> MutexGuard<'static, Vec<u8>> {
    static B: OnceLock<Mutex<Vec<u8>>> = OnceLock::new();
    B.get_or_init(|| Mutex::new(vec![0; GIANT])).lock().unwrap_or_else(|e| e.into_inner())
}

/// Whether the machine has these many bytes to spare.
pub fn to_spare(bytes: usize) -> bool {
    let info = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let free = info.lines().find_map(|l| l.strip_prefix("MemAvailable:")?.trim().strip_suffix(" kB")?.parse::<usize>().ok());
    free.is_none_or(|kb| kb * 1024 > bytes)
}

/// Variable-size item that only notes where it was.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Window(pub usize, pub usize);

impl Decode for Window {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        Ok(Window(b.as_ptr() as usize, b.len()))
    }
}

/// Variable-size item of a given length: zeros between 0xA1 and 0xB2.
#[derive(Clone, Debug, PartialEq)]
pub struct Blob(pub usize);

impl Encode for Blob {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        self.0
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        let at = buf.len();
        buf.extend_from_slice(&giant()[..self.0]);
        if self.0 > 0 {
            buf[at] = 0xA1;
            *buf.last_mut().unwrap() = 0xB2;
        }
    }
}

impl Decode for Blob {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        if is_blob(b) {
            Ok(Blob(b.len()))
        } else {
            Err(DecodeError::BytesInvalid("not a blob".into()))
        }
    }
}

pub fn is_blob(b: &[u8]) -> bool {
    match b {
        [] => true,
        [x] => *x == 0xB2,
        [0xA1, mid @ .., 0xB2] => mid == &giant()[..mid.len()],
        _ => false,
    }
}
