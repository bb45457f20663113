//! The plain sequence of booleans, the bytes it stands for, and the validity rules of the three kinds.
use crate::field::{Field, Kind, Seen, Ty};
use engine::Source;

pub type R = Result<(), String>;
pub type Bits = Vec<bool>;

pub fn pack(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            out[i / 8] |= 1 << (i % 8);
        }
    }
    out
}

pub fn unpack(bytes: &[u8], n: usize) -> Bits {
    (0..n).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect()
}

/// The exposed bytes: as few as the length needs, one for length 0.
pub fn view(bits: &[bool]) -> Vec<u8> {
    let mut v = pack(bits);
    if v.is_empty() {
        v.push(0);
    }
    v
}

pub fn encode(kind: Kind, bits: &[bool]) -> Vec<u8> {
    match kind {
        Kind::List => {
            let mut b = bits.to_vec();
            b.push(true);
            pack(&b)
        }
        _ => view(bits),
    }
}

/// The value a byte string stands for, if it is valid.
pub fn decode(ty: &Ty, bytes: &[u8]) -> Option<Bits> {
    match ty.kind {
        Kind::List => {
            let last = *bytes.last()?;
            if last == 0 {
                return None;
            }
            let mut top = 7;
            while last >> top == 0 {
                top -= 1;
            }
            let len = (bytes.len() - 1) * 8 + top;
            if len as u128 > ty.n as u128 {
                return None;
            }
            Some(unpack(bytes, len))
        }
        Kind::Vector => {
            let n = ty.cap();
            if bytes.len() != std::cmp::max(1, n.div_ceil(8)) {
                return None;
            }
            let all = unpack(bytes, bytes.len() * 8);
            if all[n..].iter().any(|b| *b) {
                return None;
            }
            Some(all[..n].to_vec())
        }
        Kind::Dynamic => {
            if bytes.is_empty() {
                return None;
            }
            Some(unpack(bytes, bytes.len() * 8))
        }
    }
}

/// May a value of the type have this length?
pub fn length_ok(ty: &Ty, len: usize) -> bool {
    match ty.kind {
        Kind::List => len <= ty.cap(),
        Kind::Vector => len == ty.cap(),
        Kind::Dynamic => len > 0 && len % 8 == 0,
    }
}

pub fn show(bits: &[bool]) -> String {
    if bits.len() <= 80 {
        let s: String = bits.iter().map(|b| if *b { '1' } else { '0' }).collect();
        return format!("{} bits {s}", bits.len());
    }
    let ones: Vec<usize> = bits.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i).collect();
    if ones.len() <= 24 {
        format!("{} bits with {ones:?}", bits.len())
    } else {
        format!("{} bits, {} of them set, {:?}..", bits.len(), ones.len(), &ones[..24])
    }
}

pub fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(160).map(|x| format!("{x:02x}")).collect();
    if b.len() > 160 {
        format!("{s}.. ({} bytes)", b.len())
    } else {
        s
    }
}

/// Runs library code.
pub fn call<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    engine::lib(f).map_err(|p| format!("{}: {p}", what()))
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        return Ok(());
    }
    let s = |x: &T| {
        let mut t = format!("{x:?}");
        if t.len() > 300 {
            t.truncate(300);
            t.push_str("..");
        }
        t
    };
    Err(format!("{what} is {}, should be {}", s(&got), s(&want)))
}

fn eq_bytes(what: &str, got: &[u8], want: &[u8]) -> R {
    if got == want {
        return Ok(());
    }
    Err(format!("{what} is {}, should be {}", hex(got), hex(want)))
}

/// The indices worth asking for.
pub fn probes(len: usize) -> Vec<usize> {
    // Past the end first: the iterator is only asked for the first few.
    let mut v: Vec<usize> = vec![];
    for k in [0, 1, 7, 8, 9, 2, 3, 4, 5, 6, 15, 16, 63, 64, 255, 256] {
        v.push(len + k);
    }
    if len <= 1200 {
        v.extend(0..len);
    } else {
        v.extend((0..40).chain((0..len).step_by(len / 97)).chain(len - 70..len));
    }
    let top = len.div_ceil(8) * 8;
    v.extend([top, top + 1, top + 7, top + 8, len * 8, usize::MAX, usize::MAX - 7, usize::MAX / 8, 1 << 32, 1 << 63]);
    v.extend([(1 << 32) + len.saturating_sub(1), (1 << 61) + len / 2, (1 << 35) + 1]);
    v
}

/// Every observation of `f` against the sequence `m`.
pub fn agree(ty: &Ty, f: &dyn Field, m: &[bool]) -> R {
    let at = probes(m.len());
    let s: Seen = call(|| format!("observing {}", show(m)), || f.see(&at))?;
    let bad = || -> R {
        eq("len", s.len, m.len())?;
        eq("is_empty", s.empty, m.is_empty())?;
        for (i, g) in &s.gets {
            if *g != m.get(*i).copied() {
                return eq(&format!("get({i})"), *g, m.get(*i).copied());
            }
        }
        if s.bits != m {
            return Err(format!("iter gives {}, should be {}", show(&s.bits), show(m)));
        }
        eq("iter past its end", s.after_end, false)?;
        for (i, g) in &s.nth {
            if *g != m.get(*i).copied() {
                return eq(&format!("iter().nth({i})"), *g, m.get(*i).copied());
            }
        }
        eq("iter().count()", s.count, m.len())?;
        eq("iter().last()", s.last, m.last().copied())?;
        if s.hint.0 > m.len() || s.hint.1.is_some_and(|h| h < m.len()) {
            return Err(format!("iter().size_hint() is {:?} for {} bits", s.hint, m.len()));
        }
        eq("highest_set_bit", s.highest, m.iter().rposition(|b| *b))?;
        eq("is_zero", s.zero, !m.iter().any(|b| *b))?;
        eq("num_set_bits", s.ones, m.iter().filter(|b| **b).count())?;
        eq_bytes("as_slice", &s.slice, &view(m))?;
        eq_bytes("into_raw_bytes", &s.raw, &view(m))?;
        let e = encode(ty.kind, m);
        eq_bytes("into_bytes", &s.into, &e)?;
        eq_bytes("as_ssz_bytes", &s.ssz, &e)?;
        eq("ssz_bytes_len", s.ssz_len, e.len())?;
        eq_bytes("ssz_append behind 3 bytes", &s.appended, &[&[0xa5, 0x5a, 1], &e[..]].concat())
    };
    bad().map_err(|e| format!("{}: {e}; expected sequence: {}", ty.name, show(m)))
}

/// The value whose construction is the least in doubt: all false, then one `set` per true bit.
pub fn plainly(ty: &Ty, bits: &[bool]) -> Result<Box<dyn Field>, String> {
    call(
        || format!("{}: building {}", ty.name, show(bits)),
        || {
            let mut f = ty.ops.new(bits.len()).map_err(|e| format!("{}: {} bits refused: {e}", ty.name, bits.len()))?;
            for (i, b) in bits.iter().enumerate() {
                if *b {
                    f.set(i, true).map_err(|e| format!("{}: set({i}) refused: {e}", ty.name))?;
                }
            }
            Ok(f)
        },
    )?
}

/// A length a value of the type can have. Small ones and those near the bound are favoured.
pub fn gen_len(ty: &Ty, src: &mut Source, most: usize) -> usize {
    match ty.kind {
        Kind::Vector => ty.cap(),
        Kind::List => {
            let top = ty.cap().min(most);
            let n = match src.draw(7) {
                0 => src.below(10),
                1 => top - src.below(10).min(top),
                2 => src.below(40),
                3 => {
                    let b = src.below(top / 8 + 1) * 8;
                    b + src.below(3)
                }
                4 => {
                    let b = src.below(top / 8 + 1) * 8;
                    b.saturating_sub(src.below(3))
                }
                5 => 1008 + src.below(40),
                6 => *src.pick(engine::consts::BOUNDARY) as usize,
                _ => src.below(top + 1),
            };
            n.min(top)
        }
        Kind::Dynamic => {
            let top = (most / 8).max(1);
            let bytes = match src.draw(5) {
                0 | 1 => 1 + src.below(4),
                2 => 1 + src.below(20),
                3 => 120 + src.below(20),
                4 => *src.pick(engine::consts::BOUNDARY) as usize,
                _ => 1 + src.below(top),
            };
            bytes.clamp(1, top) * 8
        }
    }
}

/// Contents for a length: empty, full, sparse, random, runs, or only near the ends and byte boundaries.
pub fn gen_bits(src: &mut Source, len: usize) -> Bits {
    let mut m = vec![false; len];
    if len == 0 {
        return m;
    }
    match src.draw(8) {
        0 => {}
        1 => m[src.below(len)] = true,
        2 => m.iter_mut().for_each(|b| *b = true),
        3 => {
            m.iter_mut().for_each(|b| *b = true);
            m[src.below(len)] = false;
        }
        4 => {
            for _ in 0..1 + src.below(6) {
                m[src.below(len)] = true;
            }
        }
        5 => m[len - 1] = true,
        6 => {
            let (a, b) = (src.below(len), src.below(len));
            m[a.min(b)..=a.max(b)].iter_mut().for_each(|b| *b = true);
        }
        7 => {
            for _ in 0..1 + src.below(4) {
                let i = src.below(len / 8 + 1) * 8 + *src.pick(&[0, 7, 1, 6]);
                if i < len {
                    m[i] = true;
                }
            }
        }
        _ => {
            let b = src.blob(len.div_ceil(8));
            m = unpack(&b, len);
        }
    }
    m
}

/// The bound of the type, where strings of that size are affordable.
pub fn reach(ty: &Ty) -> usize {
    if ty.n <= 70000 {
        ty.cap()
    } else {
        3000
    }
}
