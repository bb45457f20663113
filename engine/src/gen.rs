//! Generators: values of a schema, near-valid byte strings, byte-level mutation.
use crate::consts;
use crate::schema::*;
use crate::source::Source;

/// A length: mostly small, often a boundary, sometimes a literal of the code under test.
pub fn gen_len(src: &mut Source, max: usize) -> usize {
    if max == 0 {
        return 0;
    }
    let v = match src.below(8) {
        0 | 1 | 2 => src.below(4),
        3 | 4 => src.below(12),
        5 => *src.pick(consts::BOUNDARY) as usize,
        6 => src.below(max + 1),
        _ => {
            let h = consts::harvested();
            if h.is_empty() {
                src.below(40)
            } else {
                let x = *src.pick(h);
                let d = src.below(3) as u64;
                (x.wrapping_add(d).wrapping_sub(1)).min(usize::MAX as u64) as usize
            }
        }
    };
    if v <= max {
        v
    } else {
        v % (max + 1)
    }
}

pub fn gen_u64(src: &mut Source) -> u64 {
    match src.below(8) {
        0 => src.draw(3),
        1 => src.draw(300),
        2 => *src.pick(consts::BOUNDARY),
        3 => 1u64.wrapping_shl(src.below(64) as u32).wrapping_add(src.draw(2)).wrapping_sub(1),
        4 => u64::MAX - src.draw(2),
        5 => {
            let h = consts::harvested();
            if h.is_empty() {
                0
            } else {
                src.pick(h).wrapping_add(src.draw(2)).wrapping_sub(1)
            }
        }
        6 => 0x0102_0304_0506_0708u64.rotate_left(8 * src.below(8) as u32),
        _ => src.draw(u64::MAX),
    }
}

pub fn gen_int(src: &mut Source, nbytes: usize) -> Val {
    let mut limbs = [0u64; 4];
    match src.below(4) {
        // One random limb, the rest zero or ones.
        0 => {
            let i = src.below(nbytes.div_ceil(8));
            limbs[i] = gen_u64(src);
        }
        1 => {
            for l in limbs.iter_mut().take(nbytes.div_ceil(8)) {
                *l = u64::MAX;
            }
            let i = src.below(nbytes.div_ceil(8));
            limbs[i] = gen_u64(src);
        }
        2 => {
            for l in limbs.iter_mut().take(nbytes.div_ceil(8)) {
                *l = src.draw(u64::MAX);
            }
        }
        // A single non-zero byte.
        _ => {
            let i = src.below(nbytes);
            limbs[i / 8] = (1 + src.draw(254)) << (8 * (i % 8));
        }
    }
    let mut lo = limbs[0] as u128 | (limbs[1] as u128) << 64;
    let mut hi = limbs[2] as u128 | (limbs[3] as u128) << 64;
    if nbytes < 16 {
        lo &= (1u128 << (8 * nbytes)) - 1;
    }
    if nbytes <= 16 {
        hi = 0;
    }
    Val::Int(hi, lo)
}

pub fn gen_bits(src: &mut Source, n: usize) -> Vec<bool> {
    let mut bits = vec![false; n];
    if n == 0 {
        return bits;
    }
    match src.below(7) {
        0 => {}
        1 => bits.iter_mut().for_each(|b| *b = true),
        2 => {
            let i = src.below(n);
            bits[i] = true;
        }
        3 => bits[n - 1] = true,
        4 => {
            bits.iter_mut().for_each(|b| *b = true);
            let i = src.below(n);
            bits[i] = false;
        }
        5 => {
            for _ in 0..1 + src.below(4) {
                let i = src.below(n);
                bits[i] = true;
            }
        }
        _ => {
            let blob = src.blob(n.div_ceil(8));
            for (i, b) in bits.iter_mut().enumerate() {
                *b = blob[i / 8] >> (i % 8) & 1 == 1;
            }
        }
    }
    bits
}

pub struct Gen {
    /// Rough number of bytes left to spend.
    pub budget: usize,
    /// Give skipped fields their default value.
    pub default_skipped: bool,
}

impl Gen {
    pub fn bytes(&mut self, src: &mut Source, n: usize) -> Vec<u8> {
        self.budget = self.budget.saturating_sub(n);
        match src.below(4) {
            0 => vec![*src.pick(&[0u8, 1, 0xff, 0x80]); n],
            1 => (0..n).map(|i| (i + 1) as u8).collect(),
            _ => src.blob(n),
        }
    }

    pub fn list_len(&mut self, src: &mut Source, item: &Schema) -> usize {
        let cost = match item.fixed_len(Side::Enc) {
            Some(n) => n.max(1),
            None => 4 + item.min_len(),
        };
        let max = self.budget / cost;
        let n = gen_len(src, max);
        if item.fixed_len(Side::Enc).is_none() {
            self.budget = self.budget.saturating_sub(4 * n);
        }
        n
    }

    pub fn val(&mut self, s: &Schema, src: &mut Source) -> Val {
        use Schema::*;
        // Every node costs something, so the size of the whole value is bounded by the budget.
        self.budget = self.budget.saturating_sub(1);
        match s {
            Uint(n) | UintBe(n) => {
                self.budget = self.budget.saturating_sub(*n);
                gen_int(src, *n)
            }
            UintVar => gen_int(src, 8),
            NonZero(n) => match gen_int(src, *n) {
                Val::Int(0, 0) => Val::Int(0, 1),
                v => v,
            },
            Bool => Val::Bool(src.boolean()),
            ByteVec(n) => Val::Bytes(self.bytes(src, *n)),
            ByteList => {
                let n = gen_len(src, self.budget);
                Val::Bytes(self.bytes(src, n))
            }
            List(t) => {
                // Unsigned integers in long lists come from one draw.
                let n = self.list_len(src, t);
                if let (Uint(w), true) = (&**t, n > 16) {
                    let blob = self.bytes(src, n * w);
                    return Val::Seq(blob.chunks(*w).map(|c| deserialize(t, c).unwrap()).collect());
                }
                Val::Seq(self.items(t, n, src))
            }
            Set(t) => {
                let n = self.list_len(src, t);
                let mut v = self.items(t, n, src);
                v.sort();
                v.dedup();
                Val::Seq(v)
            }
            Map(k, t) => {
                let entry = container(vec![(**k).clone(), (**t).clone()]);
                let n = self.list_len(src, &entry);
                Val::Seq(collect_map(self.items(&entry, n, src)))
            }
            Container(fields) | Wrapper(fields) => Val::Seq(
                fields
                    .iter()
                    .map(|f| {
                        if self.default_skipped && f.skip_de {
                            f.schema.default_val()
                        } else {
                            self.val(&f.schema, src)
                        }
                    })
                    .collect(),
            ),
            Union(vs) => {
                // Later variants are as likely as earlier ones; the last is favoured for large unions.
                let i = if vs.len() > 4 && src.one_in(4) { vs.len() - 1 } else { src.below(vs.len()) };
                Val::Union(i, vs[i].as_ref().map(|t| Box::new(self.val(t, src))))
            }
            Legacy(t) => {
                if src.boolean() {
                    Val::Union(1, Some(Box::new(self.val(t, src))))
                } else {
                    Val::Union(0, None)
                }
            }
            Tag(n) => Val::Union(if src.one_in(4) { n - 1 } else { src.below(*n) }, None),
            BitVector(n) => {
                self.budget = self.budget.saturating_sub(bitvec_bytes(*n));
                Val::Bits(gen_bits(src, *n))
            }
            BitList(n) => {
                let cap = (*n).min(self.budget.saturating_mul(8).max(16));
                let len = if src.one_in(4) { cap } else { gen_len(src, cap) };
                self.budget = self.budget.saturating_sub(len / 8);
                Val::Bits(gen_bits(src, len))
            }
            BitDyn => {
                let len = 1 + gen_len(src, self.budget.max(2));
                self.budget = self.budget.saturating_sub(len);
                Val::Bits(gen_bits(src, len * 8))
            }
            TransEnum(vs) => {
                let i = src.below(vs.len());
                Val::Union(i, Some(Box::new(self.val(&vs[i], src))))
            }
        }
    }

    fn items(&mut self, t: &Schema, n: usize, src: &mut Source) -> Vec<Val> {
        // Split what is left between the items so that late items are not starved.
        let total = self.budget;
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let share = if src.one_in(3) { self.budget } else { (total / n).min(self.budget) };
            let keep = self.budget - share;
            self.budget = share;
            out.push(self.val(t, src));
            self.budget += keep;
            if self.budget == 0 && i >= 4 && n > 64 {
                // Repeat what we have rather than draw thousands of empty items.
                if out.len() < n {
                    let filler = self.val(t, src);
                    out.resize(n, filler);
                }
                break;
            }
        }
        out
    }
}

/// Budget of a case: mostly small, sometimes large enough for multi-byte offsets.
pub fn gen_budget(src: &mut Source) -> usize {
    match src.draw(399) {
        0..=249 => 48,
        250..=339 => 300,
        340..=389 => 1200,
        390..=398 => 6000,
        _ => 140_000,
    }
}

/// As `gen_val`, but skipped fields have any value.
pub fn gen_val_full(s: &Schema, src: &mut Source) -> Val {
    let budget = gen_budget(src);
    Gen { budget, default_skipped: false }.val(s, src)
}

pub fn gen_val(s: &Schema, src: &mut Source) -> Val {
    let budget = gen_budget(src);
    Gen { budget, default_skipped: true }.val(s, src)
}

/// Whether `many_val` has something to multiply.
pub fn can_hold_many(s: &Schema) -> bool {
    use Schema::*;
    match s {
        List(t) => t.fixed_len(Side::Dec) != Some(0),
        ByteList | BitDyn => true,
        BitList(n) => *n >= 4096,
        Set(k) | Map(k, _) => nth_key(k, 0).is_some(),
        Legacy(t) => can_hold_many(t),
        Union(vs) => vs.iter().flatten().any(can_hold_many),
        Container(fs) | Wrapper(fs) => {
            fs.iter().any(|f| f.live(Side::Enc) && f.live(Side::Dec) && can_hold_many(&f.schema))
        }
        _ => false,
    }
}

/// Key number `i` (below 2^24) of a type with that many, in their order.
fn nth_key(s: &Schema, i: usize) -> Option<Val> {
    use Schema::*;
    let bytes = || Val::Bytes((i as u32).to_be_bytes()[1..].to_vec());
    Some(match s {
        Uint(n) | UintBe(n) if *n >= 4 => Val::int(i as u128),
        NonZero(n) if *n >= 4 => Val::int(i as u128 + 1),
        ByteVec(n) if *n >= 3 => {
            let mut b = (i as u32).to_be_bytes()[1..].to_vec();
            b.resize(*n, 0);
            Val::Bytes(b)
        }
        ByteList => bytes(),
        List(t) if **t == Uint(1) => {
            Val::Seq((i as u32).to_be_bytes()[1..].iter().map(|b| Val::int(*b as u128)).collect())
        }
        List(t) if **t == ByteList => Val::Seq(vec![bytes()]),
        List(t) if **t == List(Box::new(Uint(1))) => Val::Seq(vec![nth_key(t, i)?]),
        _ => return None,
    })
}

/// A value with a part of `n` items; the items are few different ones, and small.
pub fn many_val(s: &Schema, n: usize, src: &mut Source) -> Val {
    use Schema::*;
    fn small(s: &Schema, budget: usize, src: &mut Source) -> Val {
        Gen { budget, default_skipped: true }.val(s, src)
    }
    match s {
        List(t) => {
            let few = 1 + src.below(6);
            let pool: Vec<Val> = (0..few).map(|_| small(t, 6, src)).collect();
            // The order of the pool's items does not repeat with a power of two.
            let step = 1 + src.below(few);
            Val::Seq((0..n).map(|i| pool[(i * step + i / 251) % few].clone()).collect())
        }
        ByteList => Val::Bytes((0..n).map(|i| (i % 251) as u8).collect()),
        BitDyn | BitList(_) => {
            let n = match s {
                BitList(max) => n.min(*max),
                _ => n.next_multiple_of(8),
            };
            let k = 2 + src.below(20);
            Val::Bits((0..n).map(|i| i % k == 0).collect())
        }
        Set(k) => Val::Seq((0..n).map(|i| nth_key(k, i).unwrap()).collect()),
        Map(k, v) => {
            let pool: Vec<Val> = (0..4).map(|_| small(v, 6, src)).collect();
            Val::Seq((0..n).map(|i| Val::Seq(vec![nth_key(k, i).unwrap(), pool[i % 4].clone()])).collect())
        }
        Legacy(t) => Val::Union(1, Some(Box::new(many_val(t, n, src)))),
        Union(vs) => {
            let i = vs.iter().position(|v| v.as_ref().is_some_and(can_hold_many)).unwrap();
            Val::Union(i, Some(Box::new(many_val(vs[i].as_ref().unwrap(), n, src))))
        }
        Container(fs) | Wrapper(fs) => {
            let mut done = false;
            Val::Seq(
                fs.iter()
                    .map(|f| {
                        let live = f.live(Side::Enc) && f.live(Side::Dec);
                        if live && !done && can_hold_many(&f.schema) {
                            done = true;
                            many_val(&f.schema, n, src)
                        } else if f.live(Side::Dec) {
                            small(&f.schema, 12, src)
                        } else {
                            f.schema.default_val()
                        }
                    })
                    .collect(),
            )
        }
        _ => unreachable!("harness: {s:?} holds no items"),
    }
}

// ---------------------------------------------------------------------------------------------------------
// Near-valid byte strings
// ---------------------------------------------------------------------------------------------------------

/// Serializes a value while breaking the encoding at some nodes; enclosing offset tables are built around
/// the broken part, so the fault stays local and reaches the check that should reject it.
pub struct Faulty {
    /// Probability of a fault at each node is 1 in `rate`.
    pub rate: u64,
    pub left: usize,
    pub injected: Vec<&'static str>,
}

impl Faulty {
    fn hit(&mut self, src: &mut Source) -> bool {
        self.left > 0 && src.one_in(self.rate)
    }
    fn note(&mut self, what: &'static str) {
        self.left = self.left.saturating_sub(1);
        self.injected.push(what);
    }

    pub fn ser(&mut self, s: &Schema, v: &Val, src: &mut Source) -> Vec<u8> {
        use Schema::*;
        let hit = self.hit(src);
        match s {
            Uint(_) | UintBe(_) | ByteVec(_) | UintVar => {
                let mut b = serialize(s, v);
                if hit {
                    match src.below(3) {
                        0 => {
                            self.note("fixed: extra byte");
                            b.push(*src.pick(&[0u8, 1, 0xff]));
                        }
                        1 => {
                            self.note("fixed: missing byte");
                            b.pop();
                        }
                        _ => {
                            self.note("fixed: resized");
                            let n = src.below(b.len() * 2 + 2);
                            b.resize(n, 0);
                        }
                    }
                }
                b
            }
            NonZero(n) => {
                if hit {
                    self.note("nonzero: zero");
                    vec![0; *n]
                } else {
                    serialize(s, v)
                }
            }
            Bool => {
                if hit {
                    match src.below(3) {
                        0 => {
                            self.note("bool: out of range");
                            vec![*src.pick(&[2u8, 3, 0x80, 0x81, 0xff, 0x10, 0xfe])]
                        }
                        1 => {
                            self.note("bool: extra byte");
                            vec![v.bool() as u8, *src.pick(&[0u8, 1])]
                        }
                        _ => {
                            self.note("bool: any byte");
                            vec![src.draw(255) as u8]
                        }
                    }
                } else {
                    serialize(s, v)
                }
            }
            ByteList => v.bytes().to_vec(),
            List(t) | Set(t) => {
                let mut items: Vec<Val> = v.seq().to_vec();
                self.reorder(&mut items, src, matches!(s, Set(_)));
                self.seq(t, &items, hit, src)
            }
            Map(k, t) => {
                let entry = container(vec![(**k).clone(), (**t).clone()]);
                let mut items: Vec<Val> = v.seq().to_vec();
                self.reorder(&mut items, src, true);
                self.seq(&entry, &items, hit, src)
            }
            Container(fields) => {
                let parts: Vec<(bool, Vec<u8>)> = fields
                    .iter()
                    .zip(v.seq())
                    .filter(|(f, _)| f.live(Side::Dec))
                    .map(|(f, x)| (f.schema.fixed_len(Side::Dec).is_some(), self.ser(&f.schema, x, src)))
                    .collect();
                self.layout(parts, hit, false, src)
            }
            Wrapper(fields) => {
                let i = fields.iter().position(|f| f.live(Side::Dec)).unwrap();
                self.ser(&fields[i].schema, &v.seq()[i], src)
            }
            Union(vs) => {
                let (i, body) = v.union();
                let mut sel = i as u8;
                let mut out = vec![];
                let body = match (&vs[i], body) {
                    (Some(t), Some(b)) => self.ser(t, b, src),
                    _ => vec![],
                };
                let mut body = body;
                if hit {
                    match src.below(6) {
                        0 => {
                            self.note("union: selector just past the end");
                            sel = vs.len() as u8;
                        }
                        1 => {
                            self.note("union: reserved selector");
                            sel = *src.pick(&[127u8, 128, 129, 200, 254, 255]);
                        }
                        2 => {
                            self.note("union: any selector");
                            sel = src.draw(255) as u8;
                        }
                        3 => {
                            self.note("union: empty");
                            return vec![];
                        }
                        4 => {
                            self.note("union: extra byte");
                            body.push(*src.pick(&[0u8, 1, 0xff]));
                        }
                        _ => {
                            self.note("union: no body");
                            body.clear();
                        }
                    }
                }
                out.push(sel);
                out.extend(body);
                out
            }
            Legacy(t) => {
                let (i, body) = v.union();
                let mut sel = (i as u32).to_le_bytes();
                let mut body = match body {
                    Some(b) => self.ser(t, b, src),
                    None => vec![],
                };
                if hit {
                    match src.below(5) {
                        0 => {
                            self.note("legacy: selector");
                            sel = (*src.pick(&[2u32, 3, 255, 256, 257, 0x100_0000, 0x0100_0001, 0x10001, u32::MAX]))
                                .to_le_bytes();
                        }
                        1 => {
                            self.note("legacy: one selector byte");
                            let p = src.below(4);
                            sel[p] = src.draw(255) as u8;
                        }
                        2 => {
                            self.note("legacy: truncated selector");
                            let n = src.below(4);
                            return sel[..n].to_vec();
                        }
                        3 => {
                            self.note("legacy: extra byte");
                            body.push(*src.pick(&[0u8, 1, 0xff]));
                        }
                        _ => {
                            self.note("legacy: flip");
                            sel = (1 - (i as u32)).to_le_bytes();
                        }
                    }
                }
                let mut out = sel.to_vec();
                out.extend(body);
                out
            }
            Tag(n) => {
                if hit {
                    match src.below(3) {
                        0 => {
                            self.note("tag: out of range");
                            vec![*src.pick(&[*n as u8, (*n as u8).wrapping_add(1), 127, 128, 255])]
                        }
                        1 => {
                            self.note("tag: extra byte");
                            vec![v.union().0 as u8, *src.pick(&[0u8, 1, 7, 0xff])]
                        }
                        _ => {
                            self.note("tag: empty");
                            vec![]
                        }
                    }
                } else {
                    serialize(s, v)
                }
            }
            BitVector(n) => {
                let mut b = serialize(s, v);
                if hit {
                    match src.below(5) {
                        0 if n % 8 != 0 || *n == 0 => {
                            self.note("bitvector: padding bit");
                            let l = b.len() - 1;
                            let bit = if *n == 0 { src.below(8) } else { src.range(n % 8, 7) };
                            b[l] |= 1 << bit;
                        }
                        1 => {
                            self.note("bitvector: extra byte");
                            b.push(*src.pick(&[0u8, 1, 0x80]));
                        }
                        2 => {
                            self.note("bitvector: missing byte");
                            b.pop();
                        }
                        _ => {
                            self.note("bitvector: last byte");
                            let l = b.len() - 1;
                            b[l] = src.draw(255) as u8;
                        }
                    }
                }
                b
            }
            BitDyn => {
                if hit {
                    self.note("bitdyn: empty");
                    vec![]
                } else {
                    serialize(s, v)
                }
            }
            BitList(n) => {
                let mut b = serialize(s, v);
                if hit {
                    match src.below(6) {
                        0 => {
                            self.note("bitlist: zero byte appended");
                            b.push(0);
                        }
                        1 => {
                            self.note("bitlist: empty");
                            b.clear();
                        }
                        2 => {
                            self.note("bitlist: no delimiter");
                            let l = b.len() - 1;
                            b[l] = 0;
                        }
                        3 if *n < 1 << 20 => {
                            self.note("bitlist: delimiter past the limit");
                            let pos = n + src.below(10);
                            b = vec![0xff; pos / 8 + 1];
                            let l = b.len() - 1;
                            b[l] = 1 << (pos % 8);
                        }
                        4 => {
                            self.note("bitlist: byte appended");
                            b.push(1 << src.below(8));
                        }
                        _ => {
                            self.note("bitlist: last byte");
                            let l = b.len() - 1;
                            b[l] = src.draw(255) as u8;
                        }
                    }
                }
                b
            }
            TransEnum(vs) => {
                let (i, body) = v.union();
                self.ser(&vs[i], body.unwrap(), src)
            }
        }
    }

    /// Sets and maps: unsorted and duplicate entries.
    fn reorder(&mut self, items: &mut Vec<Val>, src: &mut Source, on: bool) {
        if !on || items.is_empty() || !src.one_in(3) {
            return;
        }
        for _ in 0..1 + src.below(3) {
            match src.below(3) {
                0 => {
                    let (i, j) = (src.below(items.len()), src.below(items.len()));
                    items.swap(i, j);
                }
                1 => {
                    let (i, j) = (src.below(items.len()), src.below(items.len() + 1));
                    let x = items[i].clone();
                    items.insert(j, x);
                }
                // Same key, other value.
                _ => {
                    let (i, j) = (src.below(items.len()), src.below(items.len()));
                    let x = match (&items[i], &items[j]) {
                        (Val::Seq(a), Val::Seq(b)) if a.len() == 2 && b.len() == 2 => {
                            Val::Seq(vec![a[0].clone(), b[1].clone()])
                        }
                        (a, _) => a.clone(),
                    };
                    let at = src.below(items.len() + 1);
                    items.insert(at, x);
                }
            }
        }
        self.injected.push("entries: unsorted or duplicate");
    }

    fn seq(&mut self, t: &Schema, items: &[Val], hit: bool, src: &mut Source) -> Vec<u8> {
        if let Some(n) = t.fixed_len(Side::Dec) {
            let mut out = vec![];
            for x in items {
                out.extend(self.ser(t, x, src));
            }
            if hit {
                self.note("list: ragged");
                match src.below(3) {
                    0 => {
                        out.pop();
                    }
                    1 => out.push(0),
                    _ => {
                        let k = src.below(n.max(1) * 2 + 1);
                        let fill = src.blob(k);
                        out.extend(fill);
                    }
                }
            }
            out
        } else {
            let parts = items.iter().map(|x| (false, self.ser(t, x, src))).collect();
            self.layout(parts, hit, true, src)
        }
    }

    fn layout(&mut self, parts: Vec<(bool, Vec<u8>)>, hit: bool, list: bool, src: &mut Source) -> Vec<u8> {
        let fixed_total: usize = parts.iter().map(|(f, b)| if *f { b.len() } else { 4 }).sum();
        let mut offsets: Vec<u32> = vec![];
        let mut tail: Vec<u8> = vec![];
        for (f, b) in &parts {
            if !f {
                offsets.push((fixed_total + tail.len()) as u32);
                tail.extend_from_slice(b);
            }
        }
        let mut gap: Vec<u8> = vec![];
        let mut suffix: Vec<u8> = vec![];
        let mut cut = 0usize;
        if hit {
            let len = (fixed_total + tail.len()) as u32;
            if offsets.is_empty() {
                self.note("layout: excess or missing bytes after fixed parts");
                if src.boolean() {
                    let k = 1 + src.below(5);
                    suffix = src.blob(k);
                } else {
                    cut = 1 + src.below(3);
                }
            } else {
                let i = src.below(offsets.len());
                match src.below(12) {
                    0 => {
                        self.note("layout: gap skipped");
                        let k = 1 + src.below(5);
                        gap = src.blob(k);
                        offsets.iter_mut().for_each(|o| *o += k as u32);
                    }
                    1 => {
                        self.note("layout: gap, only the first offset skips it");
                        let k = (1 + src.below(5)).min(tail.len().max(1));
                        offsets[0] += k as u32;
                    }
                    2 => {
                        self.note("layout: offsets into the fixed part");
                        let k = 1 + src.below(fixed_total.max(1)) as u32;
                        let all = src.boolean();
                        if all {
                            offsets.iter_mut().for_each(|o| *o = o.saturating_sub(k));
                        } else {
                            offsets[i] = (fixed_total as u32).saturating_sub(k);
                        }
                    }
                    3 => {
                        self.note("layout: swapped offsets");
                        let j = src.below(offsets.len());
                        offsets.swap(i, j);
                    }
                    4 => {
                        self.note("layout: offset at or past the end");
                        offsets[i] = len + src.below(3) as u32;
                    }
                    5 => {
                        self.note("layout: huge offset");
                        offsets[i] = *src.pick(&[
                            u32::MAX,
                            u32::MAX - 3,
                            0x7fff_ffff,
                            0x8000_0000,
                            0x4000_0000,
                            0x0100_0000,
                            0xffff,
                            0x1_0000,
                        ]);
                    }
                    6 => {
                        self.note("layout: offset off by a little");
                        let d = *src.pick(&[1i64, -1, 4, -4, 2, -2, 3, 8, -8, 256, 65536, 1 << 24]);
                        offsets[i] = (offsets[i] as i64 + d).clamp(0, u32::MAX as i64) as u32;
                    }
                    7 => {
                        self.note("layout: equal neighbours");
                        let j = src.below(offsets.len());
                        offsets[i] = offsets[j];
                    }
                    8 => {
                        self.note("layout: trailing bytes");
                        let k = 1 + src.below(5);
                        suffix = src.blob(k);
                    }
                    9 => {
                        self.note("layout: truncated");
                        cut = 1 + src.below(tail.len() + 4);
                    }
                    10 => {
                        self.note("layout: offset within the variable part");
                        offsets[i] = fixed_total as u32 + src.below(tail.len() + 2) as u32;
                    }
                    _ => {
                        if list {
                            self.note("layout: item count changed");
                            let d = *src.pick(&[4i64, -4, 1, 2, 3, 8, 400]);
                            offsets[0] = (offsets[0] as i64 + d).clamp(0, u32::MAX as i64) as u32;
                        } else {
                            self.note("layout: offset zero");
                            offsets[i] = 0;
                        }
                    }
                }
            }
        }
        let mut out = vec![];
        let mut oi = 0;
        for (f, b) in &parts {
            if *f {
                out.extend_from_slice(b);
            } else {
                out.extend_from_slice(&offsets[oi].to_le_bytes());
                oi += 1;
            }
        }
        out.extend(gap);
        out.extend(tail);
        out.extend(suffix);
        let n = out.len().saturating_sub(cut);
        out.truncate(n);
        out
    }
}

const BYTES: &[u8] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 0x7f, 0x80, 0x81, 0xfe, 0xff];

/// Byte-level mutation; knows where offset words and restricted bytes are.
pub fn mutate(b: &mut Vec<u8>, ann: &Ann, src: &mut Source) -> &'static str {
    match src.below(10) {
        0 | 1 if !ann.offsets.is_empty() => {
            let p = *src.pick(&ann.offsets);
            if p + 4 <= b.len() {
                let cur = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
                let len = b.len() as u32;
                let new = match src.below(8) {
                    0 => cur.wrapping_add(1),
                    1 => cur.wrapping_sub(1),
                    2 => cur.wrapping_add(4),
                    3 => cur.wrapping_sub(4),
                    4 => len,
                    5 => len + 1,
                    6 => gen_u64(src) as u32,
                    _ => src.below(b.len() + 1) as u32,
                };
                b[p..p + 4].copy_from_slice(&new.to_le_bytes());
            }
            "offset word"
        }
        2 if !ann.marks.is_empty() => {
            let p = *src.pick(&ann.marks);
            if p < b.len() {
                b[p] = if src.boolean() { *src.pick(BYTES) } else { src.draw(255) as u8 };
            }
            "restricted byte"
        }
        3 if !ann.cuts.is_empty() => {
            let p = (*src.pick(&ann.cuts)).min(b.len());
            if src.boolean() || p >= b.len() {
                b.insert(p, *src.pick(BYTES));
            } else {
                b.remove(p);
            }
            "insert or delete at a part boundary"
        }
        4 => {
            let n = src.below(b.len() + 1);
            b.truncate(n);
            "truncate"
        }
        5 => {
            let k = 1 + src.below(4);
            for _ in 0..k {
                b.push(*src.pick(BYTES));
            }
            "extend"
        }
        6 => {
            if !b.is_empty() {
                let p = src.below(b.len());
                b[p] ^= 1 << src.below(8);
            }
            "bit flip"
        }
        7 => {
            if !b.is_empty() {
                let p = src.below(b.len());
                b.remove(p);
            }
            "delete"
        }
        8 => {
            let p = src.below(b.len() + 1);
            b.insert(p, *src.pick(BYTES));
            "insert"
        }
        _ => {
            if !b.is_empty() {
                let p = src.below(b.len());
                b[p] = *src.pick(BYTES);
            }
            "set byte"
        }
    }
}

/// A byte string to feed a decoder of `s`: returns the bytes and how they were made.
pub fn gen_wire(s: &Schema, src: &mut Source) -> (Vec<u8>, &'static str) {
    match src.below(12) {
        0 => {
            let v = gen_val_full(s, src);
            (serialize(s, &v), "valid")
        }
        1..=5 => {
            let v = gen_val_full(s, src);
            let rate = *src.pick(&[4u64, 2, 12, 1]);
            let left = *src.pick(&[1usize, 1, 2, 3]);
            let mut f = Faulty { rate, left, injected: vec![] };
            let b = f.ser(s, &v, src);
            let how = f.injected.first().copied().unwrap_or("fault injector, no fault");
            (b, how)
        }
        6..=8 => {
            let v = gen_val_full(s, src);
            let mut ann = Ann::default();
            let mut b = serialize_ann(s, &v, &mut ann);
            let mut how = "";
            for _ in 0..1 + src.below(2) {
                how = mutate(&mut b, &ann, src);
            }
            (b, how)
        }
        9 => {
            // A valid encoding of wrong length or neighbouring content: splice two encodings.
            let v = gen_val_full(s, src);
            let w = gen_val_full(s, src);
            let (a, c) = (serialize(s, &v), serialize(s, &w));
            let i = src.below(a.len() + 1);
            let j = src.below(c.len() + 1);
            let mut b = a[..i].to_vec();
            b.extend_from_slice(&c[j..]);
            (b, "splice")
        }
        10 => {
            let base = s.fixed_len(Side::Dec).unwrap_or(s.min_len());
            let n = match src.below(4) {
                0 => base,
                1 => base + src.below(9),
                2 => base.saturating_sub(1 + src.below(4)),
                _ => src.below(24),
            };
            ((0..n).map(|_| *src.pick(BYTES)).collect(), "small alphabet")
        }
        _ => {
            let n = gen_len(src, 600);
            (src.blob(n), "random")
        }
    }
}
