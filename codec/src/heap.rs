//! A generous bound on the heap a decoder may request, from the structure of the type alone.
use crate::Model;
use engine::schema::Side;
use std::mem::size_of;

/// Peak bytes <= per_byte * input length + held + transient + slack.
#[derive(Clone, Copy, Debug)]
pub struct Heap {
    pub per_byte: f64,
    /// Kept by one value whatever its size (a box, the minimum capacity of a buffer).
    pub held: f64,
    /// Scratch space and error messages.
    pub transient: f64,
}

impl Heap {
    pub fn leaf() -> Heap {
        Heap { per_byte: 8.0, held: 0.0, transient: 256.0 }
    }
    pub fn bytes() -> Heap {
        Heap { per_byte: 12.0, held: 64.0, transient: 512.0 }
    }
    pub fn bits() -> Heap {
        Heap { per_byte: 12.0, held: 0.0, transient: 1024.0 }
    }
    fn item_bytes<T: Model>() -> f64 {
        // A variable-size item costs at least its offset word, a fixed-size one its length.
        T::schema().fixed_len(Side::Dec).unwrap_or(4).max(1) as f64
    }
    /// Twelve times the items: a growing buffer (old and new block, capacity doubling) filled from another one,
    /// a table of the slices, and as much again; and per item, an error that has to wait.
    pub fn list<T: Model>() -> Heap {
        let t = T::heap();
        let size = size_of::<T>() as f64;
        Heap {
            per_byte: t.per_byte + (12.0 * size + 160.0 + t.held) / Self::item_bytes::<T>(),
            held: 8.0 * size,
            transient: t.transient + 256.0,
        }
    }
    /// Collected, sorted and bulk-built into nodes of eleven entries.
    pub fn tree<T: Model>() -> Heap {
        let t = T::heap();
        let size = size_of::<T>() as f64 + 16.0;
        Heap {
            per_byte: t.per_byte + (28.0 * size + 160.0 + t.held) / Self::item_bytes::<T>(),
            held: 48.0 * size,
            transient: t.transient + 1024.0,
        }
    }
    pub fn boxed<T: Model>() -> Heap {
        let t = T::heap();
        Heap { per_byte: t.per_byte + 4.0, held: t.held + size_of::<T>() as f64 + 64.0, transient: t.transient }
    }
    pub fn container(parts: &[Heap]) -> Heap {
        Heap {
            per_byte: parts.iter().map(|h| h.per_byte).sum(),
            held: parts.iter().map(|h| h.held).sum(),
            // Slices and offsets of the builder while this container is decoded.
            transient: parts.iter().map(|h| h.transient).sum::<f64>() + 128.0 * parts.len() as f64 + 512.0,
        }
    }
    pub fn any_of(parts: &[Heap]) -> Heap {
        let max = |f: fn(&Heap) -> f64| parts.iter().map(f).fold(0.0, f64::max);
        Heap { per_byte: max(|h| h.per_byte) + 4.0, held: max(|h| h.held), transient: max(|h| h.transient) + 256.0 }
    }
    pub fn bound(&self, len: usize) -> f64 {
        self.per_byte * len as f64 + self.held + self.transient + 65536.0
    }
}
