//! C11: histories of several bitfields of one type, against sequences of booleans.
use crate::field::*;
use crate::model::*;
use engine::{Ctx, Source};

struct Slot {
    f: Box<dyn Field>,
    m: Bits,
}

/// Equality and hash of every pair, and against values built plainly.
fn compare(ty: &Ty, slots: &[Slot], src: &mut Source) -> R {
    for (i, a) in slots.iter().enumerate() {
        let p = plainly(ty, &a.m)?;
        let (ha, hp, e1, e2) = call(
            || format!("{}: comparing {}", ty.name, show(&a.m)),
            || (a.f.hashes(), p.hashes(), a.f.equal(p.as_ref()), p.equal(a.f.as_ref())),
        )?;
        if e1 != (true, true) || e2 != (true, true) {
            return Err(format!("{}: differs from the freshly built {}", ty.name, show(&a.m)));
        }
        if ha != hp {
            return Err(format!("{}: hashes differently from the freshly built {}", ty.name, show(&a.m)));
        }
        // One bit or the length changed.
        let mut n = a.m.clone();
        if !n.is_empty() {
            let k = src.below(n.len());
            n[k] = !n[k];
        } else if length_ok(ty, 1) {
            n.push(false);
        }
        let mut others = vec![n];
        for d in [1i64, -1, 8, -8] {
            let l = a.m.len() as i64 + d;
            if l >= 0 && length_ok(ty, l as usize) {
                let mut n = a.m.clone();
                n.resize(l as usize, false);
                others.push(n);
            }
        }
        for n in others.iter().chain(slots[..i].iter().map(|s| &s.m)) {
            let q = plainly(ty, n)?;
            let got = call(|| format!("{}: comparing", ty.name), || (a.f.equal(q.as_ref()), q.equal(a.f.as_ref())))?;
            let want = *n == a.m;
            if got != ((want, want), (want, want)) {
                return Err(format!("{}: equality of {} and {} is {got:?}", ty.name, show(&a.m), show(n)));
            }
        }
        for b in &slots[..i] {
            let (e, h) = call(
                || format!("{}: comparing", ty.name),
                || (a.f.equal(b.f.as_ref()), a.f.hashes() == b.f.hashes()),
            )?;
            let want = a.m == b.m;
            if e != (want, want) || (want && !h) {
                return Err(format!("{}: equality of {} and {} is {e:?}, hashes equal: {h}", ty.name, show(&a.m), show(&b.m)));
            }
        }
    }
    Ok(())
}

/// A new value made through one of the ways to make one.
fn construct(ty: &Ty, src: &mut Source, most: usize) -> Result<(Slot, String), String> {
    let len = gen_len(ty, src, most);
    let way = src.draw(7);
    if way < 2 {
        let mut f = call(|| format!("{}: new({len})", ty.name), || ty.ops.new(len))?
            .map_err(|e| format!("{}: {len} bits refused: {e}", ty.name))?;
        if way == 1 {
            if let Some(d) = call(|| "default".into(), || ty.ops.default())? {
                f = d;
            }
        }
        return Ok((Slot { f, m: vec![false; len] }, format!("new({len})")));
    }
    let m = gen_bits(src, len);
    if way == 2 {
        return Ok((Slot { f: plainly(ty, &m)?, m: m.clone() }, format!("built {}", show(&m))));
    }
    let (f, what) = through(ty, &encode(ty.kind, &m), way)?;
    let f = f.map_err(|e| format!("{}: {what} refused {}: {e}", ty.name, hex(&encode(ty.kind, &m))))?;
    let s = format!("{what} of {}", show(&m));
    Ok((Slot { f, m }, s))
}

pub fn json(b: &[u8]) -> String {
    let mut s = String::from("\"0x");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s.push('"');
    s
}

/// A byte string through one of the decoders.
pub fn through(ty: &Ty, b: &[u8], way: u64) -> Result<(Made, &'static str), String> {
    let on = || format!("{}: decoding {}", ty.name, hex(b));
    Ok(match way {
        3 => (call(on, || ty.ops.decode(b))?, "from_ssz_bytes"),
        4 => (call(on, || ty.ops.from_bytes(Bytes::from_slice(b)))?, "from_bytes"),
        5 => {
            // Spilled to the heap, with room to spare.
            let mut v = b.to_vec();
            v.reserve(64);
            (call(on, || ty.ops.from_bytes(Bytes::from_vec(v)))?, "from_bytes (spilled)")
        }
        6 => (call(on, || ty.ops.json_str(&json(b)))?, "serde"),
        _ => match call(on, || ty.ops.from_bytes_with_len(Bytes::from_slice(b), b.len() * 8))? {
            Some(r) => (r, "from_bytes_with_len"),
            None => (call(on, || ty.ops.decode(b))?, "from_ssz_bytes"),
        },
    })
}

/// An index or a shift: inside, at the end, past it.
fn index(src: &mut Source, len: usize, cap: u64) -> usize {
    match src.draw(9) {
        0..=3 => src.below(len.max(1)),
        4 => len.saturating_sub(1 + src.below(9)),
        5 => len.saturating_add(src.below(18)),
        6 => (src.below(len / 8 + 2) * 8).saturating_sub(src.below(2)),
        7 => len.div_ceil(8) * 8 + src.below(9),
        8 => cap as usize,
        _ => *src.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 8 + 1, 1 << 32, 1 << 61, (1 << 61) + 1, 1 << 63, (1 << 32) + 1]),
    }
}

pub fn history(ty: &Ty, most: usize, steps: usize, src: &mut Source, ctx: &mut Ctx) -> R {
    let mut slots: Vec<Slot> = vec![];
    let mut log: Vec<String> = vec![];
    let mut kinds = std::collections::BTreeSet::new();
    let mut key = vec![];
    let r = run(ty, most, steps, src, &mut slots, &mut log, &mut kinds);
    for l in &log {
        key.extend_from_slice(l.as_bytes());
    }
    for k in &kinds {
        ctx.label(k);
    }
    ctx.evals(log.len() as u64);
    if log.len() > 4 {
        ctx.nontrivial(&[ty.name.as_bytes(), &key]);
    }
    ctx.sample(|| format!("{}: {}", ty.name, log.join("; ")));
    r.map_err(|e| format!("{e}; after: {}", log.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("; ")))
}

#[allow(clippy::too_many_arguments)]
fn run(
    ty: &Ty,
    most: usize,
    steps: usize,
    src: &mut Source,
    slots: &mut Vec<Slot>,
    log: &mut Vec<String>,
    kinds: &mut std::collections::BTreeSet<&'static str>,
) -> R {
    let (s, l) = construct(ty, src, most)?;
    log.push(format!("a = {l}"));
    agree(ty, s.f.as_ref(), &s.m)?;
    slots.push(s);
    let names = ["a", "b", "c"];
    for _ in 0..steps {
        if src.draw(31) == 0 && log.len() > 3 {
            break;
        }
        let i = src.below(slots.len());
        let j = src.below(slots.len());
        let mut whole = false;
        match src.draw(15) {
            // Weighted by hand: set is the most common.
            0..=3 => {
                let n = index(src, slots[i].m.len(), ty.n);
                let v = !src.one_in(3);
                log.push(format!("{}.set({n},{v})", names[i]));
                let s = &mut slots[i];
                let r = call(|| format!("{}: set({n})", ty.name), || s.f.set(n, v))?;
                let ok = n < s.m.len();
                if r.is_ok() != ok {
                    return Err(format!("{}: set({n},{v}) on {} bits gave {r:?}", ty.name, s.m.len()));
                }
                if ok {
                    s.m[n] = v;
                } else {
                    kinds.insert("set refused");
                }
            }
            4..=6 => {
                let n = index(src, slots[i].m.len(), ty.n);
                log.push(format!("{}.shift_up({n})", names[i]));
                let s = &mut slots[i];
                let r = call(|| format!("{}: shift_up({n})", ty.name), || s.f.shift_up(n))?;
                let ok = n <= s.m.len();
                if r.is_ok() != ok {
                    return Err(format!("{}: shift_up({n}) on {} bits gave {r:?}", ty.name, s.m.len()));
                }
                if ok {
                    let l = s.m.len();
                    let mut m = vec![false; l];
                    m[n..].copy_from_slice(&s.m[..l - n]);
                    s.m = m;
                    kinds.insert("shift_up");
                } else {
                    kinds.insert("shift_up refused");
                }
            }
            7 | 8 => {
                log.push(format!("{}.difference_inplace({})", names[i], names[j]));
                let o = Slot { f: call(|| "clone".into(), || slots[j].f.dup())?, m: slots[j].m.clone() };
                let s = &mut slots[i];
                call(|| format!("{}: difference_inplace", ty.name), || s.f.difference_inplace(o.f.as_ref()))?;
                for (k, b) in s.m.iter_mut().enumerate() {
                    if o.m.get(k).copied().unwrap_or(false) {
                        *b = false;
                    }
                }
                agree(ty, o.f.as_ref(), &o.m).map_err(|e| format!("operand of difference_inplace: {e}"))?;
                kinds.insert(if o.m.len() == s.m.len() { "difference_inplace" } else { "difference_inplace, other length" });
            }
            9 | 10 => {
                let k = src.below(3);
                let f = if k < slots.len() && src.boolean() {
                    log.push(format!("{}.clone_from({})", names[k], names[i]));
                    let o = call(|| "clone".into(), || slots[i].f.dup())?;
                    let t = &mut slots[k].f;
                    call(|| format!("{}: clone_from", ty.name), || t.assign(o.as_ref()))?;
                    slots[k].m = slots[i].m.clone();
                    whole = true;
                    None
                } else {
                    log.push(format!("{} = {}.clone()", names[k.min(slots.len())], names[i]));
                    Some(call(|| format!("{}: clone", ty.name), || slots[i].f.dup())?)
                };
                if let Some(f) = f {
                    let s = Slot { f, m: slots[i].m.clone() };
                    if k < slots.len() {
                        slots[k] = s;
                    } else {
                        slots.push(s);
                    }
                    whole = true;
                }
                kinds.insert("clone");
            }
            11 => {
                let way = 3 + src.draw(4);
                let s = &mut slots[i];
                let b = call(|| format!("{}: encoding {}", ty.name, show(&s.m)), || s.f.ssz())?;
                let (f, what) = through(ty, &b, way)?;
                log.push(format!("{} = {what} of its encoding", names[i]));
                s.f = f.map_err(|e| format!("{}: {what} refused the encoding {}: {e}", ty.name, hex(&b)))?;
                kinds.insert("decoded from its encoding");
            }
            12 => {
                let (s, l) = construct(ty, src, most)?;
                let k = src.below(3).min(slots.len());
                log.push(format!("{} = {l}", names[k]));
                if k < slots.len() {
                    slots[k] = s;
                } else {
                    slots.push(s);
                }
                whole = true;
            }
            13 | 14 => {
                // The results of the set operations are C12's; here they are further reachable states, whose
                // observations have to agree with each other.
                let op = src.draw(2);
                let (a, b) = (&slots[i].f, &slots[j].f);
                let (name, r) = call(
                    || format!("{}: set operation", ty.name),
                    || match op {
                        0 => ("union", a.union(b.as_ref())),
                        1 => ("intersection", a.intersection(b.as_ref())),
                        _ => ("difference", Ok(a.difference(b.as_ref()))),
                    },
                )?;
                log.push(format!("{} = {}.{name}({})", names[i], names[i], names[j]));
                if let Ok(f) = r {
                    let m = call(|| format!("{}: reading", ty.name), || {
                        let n = f.len();
                        (0..n).map(|k| f.get(k).unwrap_or(false)).collect::<Bits>()
                    })?;
                    slots[i] = Slot { f, m };
                }
                kinds.insert("set operation");
            }
            _ => {
                // Several sets in a row, as a block.
                let s = &mut slots[i];
                let l = s.m.len();
                if l > 0 {
                    let (a, b) = (src.below(l), src.below(l));
                    let v = src.boolean();
                    log.push(format!("{}.set({}..={},{v})", names[i], a.min(b), a.max(b)));
                    for n in a.min(b)..=a.max(b) {
                        let r = call(|| format!("{}: set({n})", ty.name), || s.f.set(n, v))?;
                        r.map_err(|e| format!("{}: set({n}) on {l} bits refused: {e}", ty.name))?;
                        s.m[n] = v;
                    }
                }
            }
        }
        if whole {
            for s in slots.iter() {
                agree(ty, s.f.as_ref(), &s.m)?;
            }
        } else {
            agree(ty, slots[i].f.as_ref(), &slots[i].m)?;
        }
    }
    for s in slots.iter() {
        agree(ty, s.f.as_ref(), &s.m)?;
    }
    compare(ty, slots, src)
}

/// The number of states of the type with at most `most` bits, and the state of a number.
pub fn states(ty: &Ty, most: usize) -> u64 {
    match ty.kind {
        Kind::Vector => 1 << ty.cap(),
        Kind::Dynamic => 1 << most.min(8),
        Kind::List => (1 << (ty.cap().min(most) + 1)) - 1,
    }
}

pub fn state(ty: &Ty, mut k: u64) -> Bits {
    match ty.kind {
        Kind::Vector => (0..ty.cap()).map(|i| k >> i & 1 == 1).collect(),
        Kind::Dynamic => (0..8).map(|i| k >> i & 1 == 1).collect(),
        Kind::List => {
            let mut len = 0;
            while k >= 1 << len {
                k -= 1 << len;
                len += 1;
            }
            (0..len).map(|i| k >> i & 1 == 1).collect()
        }
    }
}

/// Every operation from one state: the states of short bitfields are all visited, and since bytes and
/// length are all there is to a state, agreeing in every one of them covers every history of these.
pub fn transitions(ty: &Ty, most: usize, src: &mut Source, ctx: &mut Ctx) -> R {
    let total = states(ty, most);
    let id = src.draw(total - 1);
    let m = state(ty, id);
    ctx.sample(|| format!("{}: every operation on {}", ty.name, show(&m)));
    ctx.nontrivial(&[ty.name.as_bytes(), &pack(&m), &[m.len() as u8]]);
    let f = plainly(ty, &m)?;
    agree(ty, f.as_ref(), &m)?;
    let mut n = 0;
    for i in (0..m.len() + 10).chain([usize::MAX, 1 << 32, 1 << 61]) {
        for v in [false, true] {
            let mut g = call(|| "clone".into(), || f.dup())?;
            let r = call(|| format!("{}: set({i},{v})", ty.name), || g.set(i, v))?;
            let mut w = m.clone();
            if i < w.len() {
                w[i] = v;
            }
            if r.is_ok() != (i < m.len()) {
                return Err(format!("{}: set({i},{v}) on {} bits gave {r:?}", ty.name, m.len()));
            }
            agree(ty, g.as_ref(), &w).map_err(|e| format!("{e}; after set({i},{v}) on {}", show(&m)))?;
            n += 1;
        }
        let mut g = call(|| "clone".into(), || f.dup())?;
        let r = call(|| format!("{}: shift_up({i})", ty.name), || g.shift_up(i))?;
        let mut w = m.clone();
        if i <= w.len() {
            w = vec![false; m.len()];
            w[i..].copy_from_slice(&m[..m.len() - i]);
        }
        if r.is_ok() != (i <= m.len()) {
            return Err(format!("{}: shift_up({i}) on {} bits gave {r:?}", ty.name, m.len()));
        }
        agree(ty, g.as_ref(), &w).map_err(|e| format!("{e}; after shift_up({i}) on {}", show(&m)))?;
        n += 1;
    }
    let e = encode(ty.kind, &m);
    for way in 3..8 {
        let (g, what) = through(ty, &e, way)?;
        let g = g.map_err(|x| format!("{}: {what} refused {}: {x}", ty.name, hex(&e)))?;
        agree(ty, g.as_ref(), &m).map_err(|x| format!("{x}; after {what}"))?;
        n += 1;
    }
    // In-place difference and equality with every other state, or an even share of them.
    let step = (total / 128).max(1);
    let mut k = id % step;
    while k < total {
        let o = state(ty, k);
        let p = plainly(ty, &o)?;
        let mut g = call(|| "clone".into(), || f.dup())?;
        call(|| format!("{}: difference_inplace", ty.name), || g.difference_inplace(p.as_ref()))?;
        let w: Bits = m.iter().enumerate().map(|(i, b)| *b && !o.get(i).copied().unwrap_or(false)).collect();
        let got = call(|| "reading".into(), || (g.bits(), g.slice()))?;
        if got != (w.clone(), view(&w)) {
            agree(ty, g.as_ref(), &w).map_err(|e| format!("{e}; after difference_inplace({}) on {}", show(&o), show(&m)))?;
        }
        let (eq, h) = call(|| "comparing".into(), || (f.equal(p.as_ref()), f.hashes() == p.hashes()))?;
        let want = o == m;
        if eq != (want, want) || (want && !h) {
            return Err(format!("{}: equality of {} and {} is {eq:?}, hashes equal: {h}", ty.name, show(&m), show(&o)));
        }
        n += 1;
        k += step;
    }
    ctx.evals(n);
    Ok(())
}
