//! C13: every way to obtain a bitfield, at and around the bound of its type.
use crate::field::*;
use crate::history::through;
use crate::model::*;
use engine::{Ctx, Source};

/// Whatever came out has a length the type allows.
pub fn within(ty: &Ty, what: &str, f: &dyn Field) -> R {
    let (n, bits, bytes) = call(|| format!("{}: {what}", ty.name), || (f.len(), f.bits().len(), f.slice().len()))?;
    if !length_ok(ty, n) {
        return Err(format!("{}: {what} gave {n} bits", ty.name));
    }
    if bits != n || bytes != n.div_ceil(8).max(1) {
        return Err(format!("{}: {what} gave {n} bits, but {bits} when iterated and {bytes} bytes", ty.name));
    }
    // No further position can be used.
    let mut g = call(|| "clone".into(), || f.dup())?;
    for i in [n, n + 1, n + 7, n.div_ceil(8) * 8, usize::MAX] {
        if i >= n && call(|| format!("{}: set({i})", ty.name), || g.set(i, true))?.is_ok() {
            return Err(format!("{}: {what} of {n} bits lets bit {i} be set", ty.name));
        }
    }
    if call(|| format!("{}: shift_up({})", ty.name, n + 1), || g.shift_up(n + 1))?.is_ok() {
        return Err(format!("{}: {what} of {n} bits can be shifted by {}", ty.name, n + 1));
    }
    let l = call(|| "len".into(), || g.len())?;
    if l != n {
        return Err(format!("{}: {what} of {n} bits has {l} after a refused request", ty.name));
    }
    Ok(())
}

/// Lengths to ask a constructor for.
pub fn requests(ty: &Ty) -> Vec<usize> {
    let n = ty.cap();
    let mut v: Vec<usize> = (0..70).collect();
    let near = |v: &mut Vec<usize>, c: usize| {
        for d in 0..20 {
            v.push(c.saturating_sub(d));
            v.push(c.saturating_add(d));
        }
    };
    near(&mut v, n);
    near(&mut v, n.saturating_mul(2));
    near(&mut v, n.saturating_mul(8));
    near(&mut v, n.div_ceil(8).saturating_mul(8));
    near(&mut v, 1024);
    for b in engine::consts::BOUNDARY.iter().chain(engine::consts::harvested()) {
        v.push(*b as usize);
        v.push(b.saturating_add(1) as usize);
    }
    for k in 0..64 {
        v.push(1 << k);
        v.push((1usize << k).wrapping_sub(1));
        v.push((1usize << k).wrapping_add(n));
    }
    v.push(usize::MAX);
    v.sort_unstable();
    v.dedup();
    // Requests that are in bounds are carried out, so they have to fit into memory.
    match ty.kind {
        Kind::List => v.retain(|k| *k > n || *k <= 1 << 18),
        Kind::Dynamic => v.retain(|k| *k == 0 || k % 8 != 0 || *k <= 1 << 18),
        Kind::Vector => {}
    }
    v
}

/// The constructor, for one requested length.
pub fn construct(ty: &Ty, list: &[usize], src: &mut Source, ctx: &mut Ctx) -> R {
    let k = list[src.below(list.len())];
    ctx.nontrivial(&[ty.name.as_bytes(), &k.to_le_bytes()]);
    ctx.sample(|| format!("{}: a request for {k} bits", ty.name));
    let r = call(|| format!("{}: a request for {k} bits", ty.name), || ty.ops.new(k))?;
    let want = match ty.kind {
        Kind::Vector => true,
        _ => length_ok(ty, k),
    };
    let len = if ty.kind == Kind::Vector { ty.cap() } else { k };
    match (r, want) {
        (Ok(f), true) => {
            ctx.label("request granted");
            within(ty, &format!("a request for {k} bits"), f.as_ref())?;
            agree(ty, f.as_ref(), &vec![false; len])?;
        }
        (Err(_), false) => ctx.label("request refused"),
        (Ok(f), false) => return Err(format!("{}: a request for {k} bits gave {} bits", ty.name, f.len())),
        (Err(e), true) => return Err(format!("{}: a request for {k} bits was refused: {e}", ty.name)),
    }
    if let Some(b) = call(|| "bound".into(), || ty.ops.bound())? {
        if b != ty.cap() {
            return Err(format!("{}: reports a bound of {b}", ty.name));
        }
    }
    if let Some(f) = call(|| "default".into(), || ty.ops.default())? {
        within(ty, "the default", f.as_ref())?;
        agree(ty, f.as_ref(), &vec![false; len])?;
    }
    Ok(())
}

/// A byte string whose meaning is near the bound, through every decoder.
pub fn bytes(ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    let n = reach(ty);
    let b = match ty.kind {
        Kind::List => {
            // The delimiter decides the length.
            let len = match src.draw(4) {
                0 => src.below(n + 20),
                1 => (n + src.below(20)).saturating_sub(src.below(20)),
                2 => n.div_ceil(8) * 8 + src.below(10),
                3 => n + 1,
                _ => (n + 1 + src.below(3)) * (1 + src.below(if n > 3000 { 2 } else { 8 })),
            };
            let mut m = gen_bits(src, len);
            m.push(true);
            let mut b = pack(&m);
            match src.draw(5) {
                0 => b.extend(vec![0; 1 + src.below(3)]),
                1 if b.len() > 1 => {
                    b.pop();
                }
                _ => {}
            }
            b
        }
        Kind::Vector => {
            let need = n.div_ceil(8).max(1);
            let l = match src.draw(4) {
                0 => need.saturating_sub(1),
                1 => need + 1,
                2 => src.below(need + 10),
                _ => need,
            };
            let bits = match src.draw(3) {
                // Exactly one bit, around N.
                0 => {
                    let mut m = vec![false; l * 8];
                    let i = (n + src.below(12)).saturating_sub(src.below(12));
                    if i < m.len() {
                        m[i] = true;
                    }
                    m
                }
                1 => {
                    let mut m = vec![true; (n + src.below(3)).saturating_sub(src.below(2)).min(l * 8)];
                    m.resize(l * 8, false);
                    m
                }
                _ => gen_bits(src, l * 8),
            };
            pack(&bits)
        }
        Kind::Dynamic => {
            let l = match src.draw(2) {
                0 => src.below(4),
                1 => src.below(300),
                _ => *src.pick(engine::consts::BOUNDARY) as usize,
            };
            pack(&gen_bits(src, l * 8))
        }
    };
    let want = decode(ty, &b);
    ctx.label(if want.is_some() { "bytes within the bound" } else { "bytes beyond the bound or malformed" });
    ctx.nontrivial(&[ty.name.as_bytes(), &b]);
    ctx.sample(|| format!("{}: {}", ty.name, hex(&b)));
    for way in 3..8 {
        let (r, what) = through(ty, &b, way)?;
        judge(ty, &format!("{what} of {}", hex(&b)), r, want.as_deref())?;
    }
    ctx.evals(5);
    if ty.kind == Kind::Dynamic {
        // Declared lengths that are not the length.
        let real = b.len() * 8;
        for l in [0, 1, 7, 8, 9, real, real + 1, real + 8, real.saturating_sub(1), real.saturating_sub(7), real.saturating_sub(8), b.len(), usize::MAX, 1 << 61, 1 << 63] {
            let what = format!("from_bytes_with_len({}, {l})", hex(&b));
            let r = call(|| what.clone(), || ty.ops.from_bytes_with_len(Bytes::from_slice(&b), l))?.unwrap();
            judge(ty, &what, r, if l == real { want.as_deref() } else { None })?;
        }
    }
    Ok(())
}

pub fn judge(ty: &Ty, what: &str, r: Made, want: Option<&[bool]>) -> R {
    match (r, want) {
        (Ok(f), Some(m)) => {
            within(ty, what, f.as_ref())?;
            agree(ty, f.as_ref(), m).map_err(|e| format!("{what}: {e}"))
        }
        (Err(_), None) => Ok(()),
        (Ok(f), None) => Err(format!("{}: {what} gave {} bits, should be refused", ty.name, f.len())),
        (Err(e), Some(m)) => Err(format!("{}: {what} refused ({e}), should be {}", ty.name, show(m))),
    }
}

/// Operands at the bound, and whatever a chain of operations makes of them.
pub fn chain(ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    let most = 1500;
    let mut log = vec![];
    let mut f = {
        let l = gen_len(ty, src, most);
        log.push(format!("{l} bits"));
        plainly(ty, &gen_bits(src, l))?
    };
    for _ in 0..2 + src.below(6) {
        let l = if src.boolean() && ty.kind == Kind::List { ty.cap().min(most) } else { gen_len(ty, src, most) };
        let o = plainly(ty, &gen_bits(src, l))?;
        let op = src.draw(7);
        let on = || format!("{}: {}", ty.name, log.join(", "));
        let (what, r) = call(on, || match op {
            0 => ("union", f.union(o.as_ref())),
            1 => ("union, other way", o.union(f.as_ref())),
            2 => ("intersection", f.intersection(o.as_ref())),
            3 => ("intersection, other way", o.intersection(f.as_ref())),
            4 => ("difference", Ok(f.difference(o.as_ref()))),
            5 => ("difference, other way", Ok(o.difference(f.as_ref()))),
            6 => ("clone", Ok(f.dup())),
            _ => ("decode", ty.ops.decode(&f.ssz())),
        })?;
        log.push(format!("{what} with {l} bits"));
        let r = r.map_err(|e| format!("{}: {}: refused: {e}", ty.name, log.join(", ")))?;
        within(ty, &log.join(", "), r.as_ref())?;
        f = r;
    }
    ctx.nontrivial(&[ty.name.as_bytes(), log.join(",").as_bytes()]);
    ctx.evals(log.len() as u64);
    ctx.sample(|| format!("{}: {}", ty.name, log.join(", ")));
    Ok(())
}

/// A vector far longer than any input: nothing is a value of it, and its size is still reported.
pub fn giant(ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    let len = match src.draw(3) {
        0 => src.below(4),
        1 => engine::gen::gen_len(src, 5000),
        _ => src.below(80),
    };
    let b = if src.boolean() { vec![*src.pick(&[0u8, 1, 0x80, 0xff]); len] } else { src.blob(len) };
    ctx.nontrivial(&[ty.name.as_bytes(), &b]);
    ctx.sample(|| format!("{} from {}", ty.name, hex(&b)));
    let on = |what: &str| format!("{}: {what} of {}", ty.name, hex(&b));
    let text = format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>());
    let json = format!("\"{text}\"");
    let ways: [(&str, Made); 5] = [
        ("from_ssz_bytes", call(|| on("from_ssz_bytes"), || ty.ops.decode(&b))?),
        ("from_bytes", call(|| on("from_bytes"), || ty.ops.from_bytes(Bytes::from_slice(&b)))?),
        ("JSON", call(|| on("JSON"), || ty.ops.json_str(&json))?),
        ("JSON reader", call(|| on("JSON reader"), || ty.ops.json_reader(&json))?),
        ("text", call(|| on("text"), || ty.ops.plain(&text, 0))?),
    ];
    for (what, r) in ways {
        if let Ok(f) = r {
            return Err(format!("{} gave a value of {} bits", on(what), f.len()));
        }
    }
    let bytes = ty.cap().div_ceil(8);
    let meta = call(|| on("size"), || ty.ops.meta())?;
    if meta != (true, true, bytes, bytes) {
        return Err(format!("{}: the size is reported as {meta:?}, should be {bytes}", ty.name));
    }
    match call(|| "bound".into(), || ty.ops.bound())? {
        Some(n) if n == ty.cap() => Ok(()),
        n => Err(format!("{}: reports a bound of {n:?}", ty.name)),
    }
}

/// One pair of capacities.
pub fn resize(from: &Ty, to: &Ty, r: &Resize, src: &mut Source, ctx: &mut Ctx) -> R {
    let len = match src.draw(2) {
        0 => from.cap().min(1500),
        _ => gen_len(from, src, 1500),
    };
    let m = gen_bits(src, len);
    let f = plainly(from, &m)?;
    let on = || format!("resizing a {} of {} to {}", from.name, show(&m), to.name);
    ctx.nontrivial(&[from.name.as_bytes(), to.name.as_bytes(), &encode(Kind::List, &m)]);
    ctx.sample(on);
    let got = call(on, || (r.run)(f.as_ref()))?;
    if to.n < from.n {
        ctx.label("resize to a smaller capacity");
        if let Ok(g) = got {
            return Err(format!("{} gave {} bits, should fail", on(), g.len()));
        }
    } else {
        ctx.label("resize to a capacity at least as large");
        let g = got.map_err(|e| format!("{} failed: {e}", on()))?;
        within(to, &on(), g.as_ref())?;
        // The documented length of the result is M.
        let mut w = m.clone();
        w.resize(to.cap(), false);
        agree(to, g.as_ref(), &w).map_err(|e| format!("{}: {e}", on()))?;
    }
    agree(from, f.as_ref(), &m).map_err(|e| format!("{}: the original afterwards: {e}", on()))
}
