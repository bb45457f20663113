//! Schema and value model, reference SSZ serializer and strict reference deserializer.
//!
//! Written from the SSZ specification (simple-serialize.md) and the library's documented mapping of its own
//! types; it shares no code with the library under test.

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub schema: Schema,
    pub skip_ser: bool,
    pub skip_de: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Schema {
    /// Unsigned integer of n bytes, little endian.
    Uint(usize),
    /// Custom codec of the harness: unsigned integer of n bytes, big endian.
    UintBe(usize),
    /// Custom codec of the harness: u64 as its little-endian bytes without trailing zeros (variable size).
    UintVar,
    Bool,
    /// Non-zero unsigned integer of n bytes.
    NonZero(usize),
    /// Exactly n bytes.
    ByteVec(usize),
    /// Any number of bytes.
    ByteList,
    List(Box<Schema>),
    Container(Vec<Field>),
    /// Transparent struct: the encoding of the one field that is live on that side.
    Wrapper(Vec<Field>),
    /// One-byte selector; None is a variant without body.
    Union(Vec<Option<Schema>>),
    /// Four-byte selector option.
    Legacy(Box<Schema>),
    /// uint8 below n.
    Tag(usize),
    BitVector(usize),
    BitList(usize),
    BitDyn,
    Map(Box<Schema>, Box<Schema>),
    Set(Box<Schema>),
    /// Encodes as the inner value, decodes to the first variant that accepts.
    TransEnum(Vec<Schema>),
}

/// Derived Ord agrees with the Ord of the Rust types used as keys: integers numerically, byte strings and
/// sequences lexicographically, variants by index.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    /// 256-bit number as (high, low).
    Int(u128, u128),
    Bool(bool),
    Bytes(Vec<u8>),
    Seq(Vec<Val>),
    Union(usize, Option<Box<Val>>),
    Bits(Vec<bool>),
}

impl Val {
    pub fn int(x: u128) -> Val {
        Val::Int(0, x)
    }
    pub fn as_u128(&self) -> u128 {
        match self {
            Val::Int(0, lo) => *lo,
            _ => panic!("harness: not a u128: {self:?}"),
        }
    }
    pub fn seq(&self) -> &[Val] {
        match self {
            Val::Seq(v) => v,
            _ => panic!("harness: not a sequence: {self:?}"),
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            Val::Bytes(v) => v,
            _ => panic!("harness: not bytes: {self:?}"),
        }
    }
    pub fn bits(&self) -> &[bool] {
        match self {
            Val::Bits(v) => v,
            _ => panic!("harness: not bits: {self:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            Val::Bool(b) => *b,
            _ => panic!("harness: not a bool: {self:?}"),
        }
    }
    pub fn union(&self) -> (usize, Option<&Val>) {
        match self {
            Val::Union(i, v) => (*i, v.as_deref()),
            _ => panic!("harness: not a union: {self:?}"),
        }
    }
    /// Compact rendering for evidence and reports.
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s, 160);
        s
    }
    fn show_into(&self, s: &mut String, max: usize) {
        use std::fmt::Write;
        if s.len() > max {
            if !s.ends_with("..") {
                s.push_str("..");
            }
            return;
        }
        match self {
            Val::Int(0, x) => write!(s, "{x}").unwrap(),
            Val::Int(h, l) => write!(s, "0x{h:x}{l:032x}").unwrap(),
            Val::Bool(b) => write!(s, "{b}").unwrap(),
            Val::Bytes(b) => s.push_str(&hex_short(b, 48)),
            Val::Bits(b) => {
                s.push_str("b'");
                for x in b.iter().take(72) {
                    s.push(if *x { '1' } else { '0' });
                }
                if b.len() > 72 {
                    write!(s, "..({} bits)", b.len()).unwrap();
                }
            }
            Val::Seq(v) => {
                s.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    if s.len() > max {
                        write!(s, "..({} items)", v.len()).unwrap();
                        break;
                    }
                    x.show_into(s, max);
                }
                s.push(']');
            }
            Val::Union(i, v) => {
                write!(s, "#{i}(").unwrap();
                if let Some(v) = v {
                    v.show_into(s, max);
                }
                s.push(')');
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(2 + b.len() * 2);
    s.push_str("0x");
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}

pub fn hex_short(b: &[u8], max: usize) -> String {
    if b.len() <= max {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..max]), b.len())
    }
}

pub fn field(schema: Schema) -> Field {
    Field { schema, skip_ser: false, skip_de: false }
}

pub fn container(fields: Vec<Schema>) -> Schema {
    Schema::Container(fields.into_iter().map(field).collect())
}

/// Which side of the codec a question is asked for (they differ only for one-sided skipped fields).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Side {
    Enc,
    Dec,
}

impl Field {
    pub fn live(&self, side: Side) -> bool {
        match side {
            Side::Enc => !self.skip_ser,
            Side::Dec => !self.skip_de,
        }
    }
}

/// The one live field of a wrapper.
pub fn live_field(fields: &[Field], side: Side) -> &Field {
    fields.iter().find(|f| f.live(side)).expect("harness: wrapper without live field")
}

pub fn bitvec_bytes(n: usize) -> usize {
    std::cmp::max(1, n.div_ceil(8))
}

impl Schema {
    pub fn option(inner: Schema) -> Schema {
        Schema::Union(vec![None, Some(inner)])
    }

    pub fn fixed_len(&self, side: Side) -> Option<usize> {
        use Schema::*;
        match self {
            Uint(n) | UintBe(n) | NonZero(n) | ByteVec(n) => Some(*n),
            Bool | Tag(_) => Some(1),
            BitVector(n) => Some(bitvec_bytes(*n)),
            Container(fields) => {
                let mut sum = 0;
                for f in fields.iter().filter(|f| f.live(side)) {
                    sum += f.schema.fixed_len(side)?;
                }
                Some(sum)
            }
            Wrapper(fields) => live_field(fields, side).schema.fixed_len(side),
            UintVar | ByteList | List(_) | Union(_) | Legacy(_) | BitList(_) | BitDyn | Map(..) | Set(_)
            | TransEnum(_) => None,
        }
    }

    /// Shortest possible encoding.
    pub fn min_len(&self) -> usize {
        use Schema::*;
        match self {
            UintVar | ByteList | List(_) | Map(..) | Set(_) => 0,
            Union(vs) => 1 + vs.iter().map(|v| v.as_ref().map_or(0, |v| v.min_len())).min().unwrap_or(0),
            Legacy(_) => 4,
            BitList(_) | BitDyn => 1,
            TransEnum(vs) => vs.iter().map(|v| v.min_len()).min().unwrap_or(0),
            Container(fields) => fields
                .iter()
                .filter(|f| f.live(Side::Enc))
                .map(|f| f.schema.fixed_len(Side::Enc).unwrap_or_else(|| 4 + f.schema.min_len()))
                .sum(),
            Wrapper(fields) => live_field(fields, Side::Enc).schema.min_len(),
            s => s.fixed_len(Side::Enc).unwrap(),
        }
    }

    /// Contains a list whose items have zero encoded length.
    pub fn has_zero_len_items(&self) -> bool {
        self.any(&|s| match s {
            Schema::List(t) | Schema::Set(t) => t.fixed_len(Side::Dec) == Some(0),
            Schema::Map(k, v) => k.fixed_len(Side::Dec) == Some(0) && v.fixed_len(Side::Dec) == Some(0),
            _ => false,
        })
    }

    pub fn any(&self, f: &dyn Fn(&Schema) -> bool) -> bool {
        use Schema::*;
        if f(self) {
            return true;
        }
        match self {
            List(t) | Set(t) | Legacy(t) => t.any(f),
            Map(k, v) => k.any(f) || v.any(f),
            Container(fs) | Wrapper(fs) => fs.iter().any(|x| x.schema.any(f)),
            Union(vs) => vs.iter().flatten().any(|x| x.any(f)),
            TransEnum(vs) => vs.iter().any(|x| x.any(f)),
            _ => false,
        }
    }

    pub fn has_map_or_set(&self) -> bool {
        self.any(&|s| matches!(s, Schema::Map(..) | Schema::Set(_)))
    }
    pub fn has_trans_enum(&self) -> bool {
        self.any(&|s| matches!(s, Schema::TransEnum(_)))
    }
    /// A field is skipped on one side only: encoder and decoder implement different schemas.
    pub fn has_one_sided_skip(&self) -> bool {
        self.any(&|s| matches!(s, Schema::Container(fs) | Schema::Wrapper(fs) if fs.iter().any(|f| f.skip_ser != f.skip_de)))
    }

    /// The value `Default::default()` has.
    pub fn default_val(&self) -> Val {
        use Schema::*;
        match self {
            Uint(_) | UintBe(_) | UintVar => Val::Int(0, 0),
            Bool => Val::Bool(false),
            ByteVec(n) => Val::Bytes(vec![0; *n]),
            ByteList => Val::Bytes(vec![]),
            List(_) | Map(..) | Set(_) => Val::Seq(vec![]),
            Container(fs) | Wrapper(fs) => Val::Seq(fs.iter().map(|f| f.schema.default_val()).collect()),
            Union(vs) if vs[0].is_none() => Val::Union(0, None),
            Legacy(_) => Val::Union(0, None),
            BitVector(n) => Val::Bits(vec![false; *n]),
            s => panic!("harness: no default for {s:?}"),
        }
    }
}

pub fn int_le(v: &Val, n: usize) -> Vec<u8> {
    match v {
        Val::Int(hi, lo) => {
            let mut b = lo.to_le_bytes().to_vec();
            b.extend_from_slice(&hi.to_le_bytes());
            b.truncate(n);
            b
        }
        _ => panic!("harness: not an int: {v:?}"),
    }
}

fn le_int(b: &[u8]) -> Val {
    let mut lo = 0u128;
    let mut hi = 0u128;
    for (i, x) in b.iter().enumerate() {
        if i < 16 {
            lo |= (*x as u128) << (8 * i);
        } else {
            hi |= (*x as u128) << (8 * (i - 16));
        }
    }
    Val::Int(hi, lo)
}

pub fn pack_bits(bits: &[bool], nbytes: usize) -> Vec<u8> {
    let mut out = vec![0u8; nbytes];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            out[i / 8] |= 1 << (i % 8);
        }
    }
    out
}

/// Where the structure of an encoding sits (absolute byte positions).
#[derive(Default, Clone, Debug)]
pub struct Ann {
    /// Positions of 4-byte offset words.
    pub offsets: Vec<usize>,
    /// Positions of bytes with a restricted value range (selectors, tags, bools, last bitfield bytes).
    pub marks: Vec<usize>,
    /// Boundaries between parts.
    pub cuts: Vec<usize>,
}

/// Fixed and variable parts in order -> bytes.
pub fn assemble(parts: Vec<(bool, Vec<u8>, Ann)>, ann: &mut Ann) -> Vec<u8> {
    let fixed_total: usize = parts.iter().map(|(fixed, b, _)| if *fixed { b.len() } else { 4 }).sum();
    let mut head = Vec::with_capacity(fixed_total);
    let mut tail: Vec<u8> = vec![];
    for (fixed, b, a) in parts {
        let base = if fixed {
            let base = head.len();
            head.extend_from_slice(&b);
            base
        } else {
            let base = fixed_total + tail.len();
            ann.offsets.push(head.len());
            head.extend_from_slice(&(base as u32).to_le_bytes());
            tail.extend_from_slice(&b);
            base
        };
        ann.cuts.push(base);
        ann.offsets.extend(a.offsets.iter().map(|p| p + base));
        ann.marks.extend(a.marks.iter().map(|p| p + base));
        ann.cuts.extend(a.cuts.iter().map(|p| p + base));
    }
    head.extend_from_slice(&tail);
    head
}

pub fn serialize(s: &Schema, v: &Val) -> Vec<u8> {
    serialize_ann(s, v, &mut Ann::default())
}

fn simple(out: Vec<u8>) -> Vec<u8> {
    out
}

pub fn serialize_ann(s: &Schema, v: &Val, ann: &mut Ann) -> Vec<u8> {
    use Schema::*;
    match s {
        Uint(n) => simple(int_le(v, *n)),
        UintBe(n) => {
            let mut b = int_le(v, *n);
            b.reverse();
            b
        }
        UintVar => {
            let mut b = int_le(v, 8);
            while b.last() == Some(&0) {
                b.pop();
            }
            b
        }
        NonZero(n) => int_le(v, *n),
        Bool => {
            ann.marks.push(0);
            vec![v.bool() as u8]
        }
        ByteVec(n) => {
            assert_eq!(v.bytes().len(), *n, "harness: byte vector length");
            v.bytes().to_vec()
        }
        ByteList => v.bytes().to_vec(),
        List(t) | Set(t) => serialize_seq(t, v.seq(), ann),
        Map(k, val) => {
            let entry = container(vec![(**k).clone(), (**val).clone()]);
            serialize_seq(&entry, v.seq(), ann)
        }
        Container(fields) => {
            let parts = fields
                .iter()
                .zip(v.seq())
                .filter(|(f, _)| f.live(Side::Enc))
                .map(|(f, x)| {
                    let mut a = Ann::default();
                    let b = serialize_ann(&f.schema, x, &mut a);
                    (f.schema.fixed_len(Side::Enc).is_some(), b, a)
                })
                .collect();
            assemble(parts, ann)
        }
        Wrapper(fields) => {
            let i = fields.iter().position(|f| f.live(Side::Enc)).unwrap();
            serialize_ann(&fields[i].schema, &v.seq()[i], ann)
        }
        Union(vs) => {
            let (i, body) = v.union();
            ann.marks.push(0);
            let mut out = vec![i as u8];
            if let (Some(t), Some(b)) = (&vs[i], body) {
                let mut a = Ann::default();
                out.extend(serialize_ann(t, b, &mut a));
                ann.cuts.push(1);
                ann.offsets.extend(a.offsets.iter().map(|p| p + 1));
                ann.marks.extend(a.marks.iter().map(|p| p + 1));
                ann.cuts.extend(a.cuts.iter().map(|p| p + 1));
            }
            out
        }
        Legacy(t) => {
            let (i, body) = v.union();
            ann.marks.extend([0, 1, 2, 3]);
            let mut out = (i as u32).to_le_bytes().to_vec();
            if let Some(b) = body {
                let mut a = Ann::default();
                out.extend(serialize_ann(t, b, &mut a));
                ann.cuts.push(4);
                ann.offsets.extend(a.offsets.iter().map(|p| p + 4));
                ann.marks.extend(a.marks.iter().map(|p| p + 4));
            }
            out
        }
        Tag(_) => {
            ann.marks.push(0);
            vec![v.union().0 as u8]
        }
        BitVector(n) => {
            let b = v.bits();
            assert_eq!(b.len(), *n, "harness: bit vector length");
            ann.marks.push(bitvec_bytes(*n) - 1);
            pack_bits(b, bitvec_bytes(*n))
        }
        BitDyn => pack_bits(v.bits(), v.bits().len() / 8),
        BitList(n) => {
            let mut b = v.bits().to_vec();
            assert!(b.len() <= *n, "harness: bit list length");
            b.push(true);
            let out = pack_bits(&b, b.len().div_ceil(8));
            ann.marks.push(out.len() - 1);
            out
        }
        TransEnum(vs) => {
            let (i, body) = v.union();
            serialize_ann(&vs[i], body.unwrap(), ann)
        }
    }
}

fn serialize_seq(t: &Schema, items: &[Val], ann: &mut Ann) -> Vec<u8> {
    let fixed = t.fixed_len(Side::Enc).is_some();
    if let (true, Schema::Uint(n)) = (fixed, t) {
        let mut out = Vec::with_capacity(items.len() * n);
        for x in items {
            out.extend(int_le(x, *n));
        }
        return out;
    }
    let parts = items
        .iter()
        .map(|x| {
            let mut a = Ann::default();
            let b = serialize_ann(t, x, &mut a);
            (fixed, b, a)
        })
        .collect();
    assemble(parts, ann)
}

pub type De = Result<Val, &'static str>;

/// Splits an offset-table layout: `kinds[i]` is the length of fixed part i, or None for a variable part.
pub fn split_parts<'a>(kinds: &[Option<usize>], b: &'a [u8]) -> Result<Vec<&'a [u8]>, &'static str> {
    let mut fixed_total = 0usize;
    for k in kinds {
        fixed_total = fixed_total.checked_add(k.unwrap_or(4)).ok_or("fixed part overflows")?;
    }
    if b.len() < fixed_total {
        return Err("input shorter than the fixed part");
    }
    let mut pos = 0usize;
    let mut offsets = vec![];
    for k in kinds {
        match k {
            Some(n) => pos += n,
            None => {
                let w = u32::from_le_bytes([b[pos], b[pos + 1], b[pos + 2], b[pos + 3]]) as usize;
                offsets.push(w);
                pos += 4;
            }
        }
    }
    if offsets.is_empty() {
        if b.len() != fixed_total {
            return Err("excess bytes after a fixed-size container");
        }
    } else {
        if offsets[0] != fixed_total {
            return Err("first offset is not the end of the fixed part");
        }
        for w in offsets.windows(2) {
            if w[1] < w[0] {
                return Err("offsets decrease");
            }
        }
        if *offsets.last().unwrap() > b.len() {
            return Err("offset past the end");
        }
    }
    let mut out = Vec::with_capacity(kinds.len());
    let mut pos = 0;
    let mut vi = 0;
    for k in kinds {
        match k {
            Some(n) => {
                out.push(&b[pos..pos + n]);
                pos += n;
            }
            None => {
                let start = offsets[vi];
                let end = offsets.get(vi + 1).copied().unwrap_or(b.len());
                out.push(&b[start..end]);
                vi += 1;
                pos += 4;
            }
        }
    }
    Ok(out)
}

/// Splits a list of variable-size items.
pub fn split_list(b: &[u8]) -> Result<Vec<&[u8]>, &'static str> {
    if b.is_empty() {
        return Ok(vec![]);
    }
    if b.len() < 4 {
        return Err("input too short for an offset");
    }
    let first = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
    if first == 0 || first % 4 != 0 {
        return Err("first offset of a list is not a positive multiple of 4");
    }
    if first > b.len() {
        return Err("offset past the end");
    }
    split_parts(&vec![None; first / 4], b)
}

pub fn deserialize(s: &Schema, b: &[u8]) -> De {
    use Schema::*;
    if let Some(n) = s.fixed_len(Side::Dec) {
        if b.len() != n {
            return Err("wrong length for a fixed-size type");
        }
    }
    match s {
        Uint(_) => Ok(le_int(b)),
        UintBe(_) => {
            let mut r = b.to_vec();
            r.reverse();
            Ok(le_int(&r))
        }
        UintVar => {
            if b.len() > 8 || b.last() == Some(&0) {
                Err("varint")
            } else {
                Ok(le_int(b))
            }
        }
        NonZero(_) => {
            if b.iter().all(|x| *x == 0) {
                Err("zero")
            } else {
                Ok(le_int(b))
            }
        }
        Bool => match b[0] {
            0 => Ok(Val::Bool(false)),
            1 => Ok(Val::Bool(true)),
            _ => Err("bool out of range"),
        },
        ByteVec(_) | ByteList => Ok(Val::Bytes(b.to_vec())),
        List(t) => Ok(Val::Seq(deserialize_seq(t, b)?)),
        Set(t) => {
            let mut v = deserialize_seq(t, b)?;
            v.sort();
            v.dedup();
            Ok(Val::Seq(v))
        }
        Map(k, t) => {
            let entry = container(vec![(**k).clone(), (**t).clone()]);
            let v = deserialize_seq(&entry, b)?;
            Ok(Val::Seq(collect_map(v)))
        }
        Container(fields) => {
            let kinds: Vec<_> =
                fields.iter().filter(|f| f.live(Side::Dec)).map(|f| f.schema.fixed_len(Side::Dec)).collect();
            let parts = split_parts(&kinds, b)?;
            let mut it = parts.into_iter();
            let mut out = Vec::with_capacity(fields.len());
            for f in fields {
                if f.live(Side::Dec) {
                    out.push(deserialize(&f.schema, it.next().unwrap())?);
                } else {
                    out.push(f.schema.default_val());
                }
            }
            Ok(Val::Seq(out))
        }
        Wrapper(fields) => {
            let mut out = Vec::with_capacity(fields.len());
            for f in fields {
                out.push(if f.live(Side::Dec) { deserialize(&f.schema, b)? } else { f.schema.default_val() });
            }
            Ok(Val::Seq(out))
        }
        Union(vs) => {
            let sel = *b.first().ok_or("empty union")? as usize;
            if sel >= vs.len() || sel > 127 {
                return Err("selector out of range");
            }
            match &vs[sel] {
                None if b.len() == 1 => Ok(Val::Union(sel, None)),
                None => Err("body after a selector without body"),
                Some(t) => Ok(Val::Union(sel, Some(Box::new(deserialize(t, &b[1..])?)))),
            }
        }
        Legacy(t) => {
            if b.len() < 4 {
                return Err("input shorter than the selector");
            }
            match u32::from_le_bytes([b[0], b[1], b[2], b[3]]) {
                0 if b.len() == 4 => Ok(Val::Union(0, None)),
                0 => Err("body after the None selector"),
                1 => Ok(Val::Union(1, Some(Box::new(deserialize(t, &b[4..])?)))),
                _ => Err("selector out of range"),
            }
        }
        Tag(n) => {
            if (b[0] as usize) < *n {
                Ok(Val::Union(b[0] as usize, None))
            } else {
                Err("tag out of range")
            }
        }
        BitVector(n) => {
            let bits = unpack_bits(b);
            if bits.iter().skip(*n).any(|x| *x) {
                return Err("padding bit set");
            }
            Ok(Val::Bits(bits[..*n].to_vec()))
        }
        BitDyn => {
            if b.is_empty() {
                Err("empty dynamic bit vector")
            } else {
                Ok(Val::Bits(unpack_bits(b)))
            }
        }
        BitList(n) => {
            let last = *b.last().ok_or("empty bit list")?;
            if last == 0 {
                return Err("no delimiter bit in the last byte");
            }
            let len = (b.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
            if len > *n {
                return Err("bit list longer than its limit");
            }
            let mut bits = unpack_bits(b);
            bits.truncate(len);
            Ok(Val::Bits(bits))
        }
        TransEnum(vs) => {
            for (i, t) in vs.iter().enumerate() {
                if let Ok(v) = deserialize(t, b) {
                    return Ok(Val::Union(i, Some(Box::new(v))));
                }
            }
            Err("no variant accepts")
        }
    }
}

/// Entries in input order -> sorted, a later duplicate key replacing an earlier one.
pub fn collect_map(v: Vec<Val>) -> Vec<Val> {
    let mut m = std::collections::BTreeMap::new();
    for e in v {
        match e {
            Val::Seq(mut kv) => {
                let val = kv.pop().unwrap();
                let key = kv.pop().unwrap();
                m.insert(key, val);
            }
            _ => unreachable!(),
        }
    }
    m.into_iter().map(|(k, v)| Val::Seq(vec![k, v])).collect()
}

fn unpack_bits(b: &[u8]) -> Vec<bool> {
    let mut out = Vec::with_capacity(b.len() * 8);
    for x in b {
        for i in 0..8 {
            out.push(x >> i & 1 == 1);
        }
    }
    out
}

pub fn deserialize_seq(t: &Schema, b: &[u8]) -> Result<Vec<Val>, &'static str> {
    if b.is_empty() {
        return Ok(vec![]);
    }
    if let Some(n) = t.fixed_len(Side::Dec) {
        if n == 0 {
            return Err("list of zero-length items");
        }
        if b.len() % n != 0 {
            return Err("list length is not a multiple of the item length");
        }
        b.chunks(n).map(|c| deserialize(t, c)).collect()
    } else {
        split_list(b)?.into_iter().map(|p| deserialize(t, p)).collect()
    }
}
