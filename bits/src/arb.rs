//! C20: generation from unstructured data.
use crate::bounds::within;
use crate::field::*;
use crate::model::*;
use arbitrary::Unstructured;
use engine::{Ctx, Source};

/// A generated value is one of the type, and an SSZ round trip gives it back.
fn valid(ty: &Ty, what: &dyn Fn() -> String, f: &dyn Field) -> R {
    within(ty, &what(), f)?;
    let m = call(what, || {
        let n = f.len();
        (0..n).map(|i| f.get(i).unwrap_or(false)).collect::<Bits>()
    })?;
    agree(ty, f, &m).map_err(|e| format!("{}: {e}", what()))?;
    let b = call(what, || f.ssz())?;
    let d = call(what, || ty.ops.decode(&b))?.map_err(|e| format!("{}: encodes to {} which is rejected: {e}", what(), hex(&b)))?;
    if call(what, || d.equal(f))? != (true, true) {
        return Err(format!("{}: does not round-trip through {}", what(), hex(&b)));
    }
    Ok(())
}

/// Generation from `data`: several values in a row, and one from all that is left.
pub fn generate(ty: &Ty, data: &[u8], ctx: &mut Ctx) -> Result<usize, String> {
    let mut made = 0;
    let what = || format!("{}: generating from {}", ty.name, hex(data));
    let mut u = Unstructured::new(data);
    for _ in 0..4 {
        let left = u.len();
        let r = call(what, || ty.ops.arbitrary(&mut u))?;
        if let Ok(f) = r {
            valid(ty, &what, f.as_ref())?;
            made += 1;
        }
        ctx.evals(1);
        if u.is_empty() && left == 0 {
            break;
        }
    }
    let rest = || format!("{}: generating from the whole of {}", ty.name, hex(data));
    if let Ok(f) = call(rest, || ty.ops.arbitrary_rest(Unstructured::new(data)))? {
        valid(ty, &rest, f.as_ref())?;
        made += 1;
    }
    call(|| format!("{}: size_hint", ty.name), || ty.ops.hint())?;
    Ok(made)
}

/// Numbers a generator may read as a length or size.
fn number(src: &mut Source, ty: &Ty) -> u64 {
    let n = ty.n.min(1 << 20);
    match src.draw(6) {
        0 => src.draw(n.min(12)),
        1 => n.saturating_sub(src.draw(10)),
        2 => n + src.draw(10),
        3 => n / 8 + src.draw(3),
        4 => src.draw(n),
        5 => *src.pick(&[u64::MAX, 1 << 63, 1 << 32, u32::MAX as u64, 1 << 40, 1 << 31, 0, 1]),
        _ => src.draw(u64::MAX),
    }
}

fn body(src: &mut Source, l: usize) -> Vec<u8> {
    match src.draw(4) {
        0 => vec![0; l],
        1 => {
            let mut b = vec![0; l];
            if l > 0 {
                let k = src.below(l);
                b[k] = 1 << src.draw(7);
            }
            b
        }
        2 => vec![*src.pick(&[1u8, 0xff, 0x80, 0x7f, 2]); l],
        3 => {
            let mut b = src.blob(l);
            if l > 0 {
                let k = l - 1;
                b[k] = *src.pick(&[0, 1, 2, 4, 8, 16, 32, 64, 128]);
            }
            b
        }
        _ => src.blob(l),
    }
}

/// Data as it may be laid out: a number in front, behind or both, and bytes of about the size the type needs.
pub fn data(ty: &Ty, src: &mut Source) -> Vec<u8> {
    let need = (ty.n.min(1 << 18) / 8 + 1) as usize;
    let l = match src.draw(6) {
        0 => src.below(12),
        1 => (need + src.below(4)).saturating_sub(src.below(4)),
        2 => src.below(need + 1),
        3 => need + src.below(20),
        4 => need * (2 + src.below(3)),
        5 => (ty.n.min(4096)) as usize + src.below(20),
        _ => src.below(300),
    };
    let b = body(src, l.min(1 << 17));
    let num = |src: &mut Source| {
        let width = *src.pick(&[8usize, 4, 2, 1]);
        // Where the number can be the size of what follows, it often is.
        let v = if src.boolean() { b.len() as u64 } else { number(src, ty) };
        v.to_le_bytes()[..width].to_vec()
    };
    match src.draw(5) {
        0 => b,
        1..=3 => [num(src), b.clone()].concat(),
        4 => {
            let t = num(src);
            [b.clone(), t].concat()
        }
        _ => {
            let (h, t) = (num(src), num(src));
            [h, b.clone(), t].concat()
        }
    }
}

pub fn random(ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    let d = data(ty, src);
    let n = generate(ty, &d, ctx)?;
    ctx.label(if n > 0 { "data that gives a value" } else { "data that gives none" });
    if !d.is_empty() {
        ctx.nontrivial(&[ty.name.as_bytes(), &d]);
    }
    ctx.sample(|| format!("{}: {} gives {n} values", ty.name, hex(&d)));
    Ok(())
}

/// 256 short strings, as they are and behind a number.
pub fn short(ty: &Ty, total: u64, src: &mut Source, ctx: &mut Ctx) -> R {
    let k = src.draw(total - 1);
    let mut n = 0;
    for last in 0..=255u8 {
        let b: Vec<u8> = match k {
            0 => vec![last],
            1..=256 => vec![(k - 1) as u8, last],
            _ => {
                let size = k - 257;
                [&size.to_le_bytes()[..], &[last]].concat()
            }
        };
        n += generate(ty, &b, ctx)?;
    }
    if k == 0 {
        n += generate(ty, &[], ctx)?;
    }
    ctx.evals(255);
    if n > 0 {
        ctx.nontrivial(&[ty.name.as_bytes(), &k.to_le_bytes()]);
    }
    ctx.sample(|| format!("{}: block {k} of 256 strings, {n} values", ty.name));
    Ok(())
}

/// Is there an input that gives a value? Inputs are tried in a fixed order, then drawn.
pub fn reachable(ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    let mut tried = 0u64;
    let mut attempt = |d: &[u8]| -> Result<bool, String> {
        tried += 1;
        let what = || format!("{}: generating from {}", ty.name, hex(d));
        let mut u = Unstructured::new(d);
        match call(what, || ty.ops.arbitrary(&mut u))? {
            Ok(f) => valid(ty, &what, f.as_ref()).map(|_| true),
            Err(_) => Ok(false),
        }
    };
    let need = ty.n.min(1 << 18) / 8 + 1;
    let mut hit: Option<Vec<u8>> = None;
    let mut sizes: Vec<u64> = vec![1, 0, 2, 3, 4, 8, 9, 16, need, need - 1, need + 1, need + 8, need + 9, 2 * need, ty.n.min(1 << 16), ty.n.min(1 << 16) + 8];
    sizes.extend([5, 6, 7, 10, 11, 12, 13, 14, 15]);
    'search: {
        for size in &sizes {
            for fill in [1u8, 0, 0xff, 2, 0x80, 4, 8, 16, 32, 64] {
                // All of one byte; zeros ending in that byte; each bare, behind a number and before one.
                let mut last = vec![0; *size as usize];
                if let Some(x) = last.last_mut() {
                    *x = fill;
                }
                for b in [last, vec![fill; *size as usize]] {
                    let mut forms = vec![b.clone()];
                    for number in [*size, ty.n, ty.n - 1, need, size * 8, ty.n - ty.n % 8, 0] {
                        for width in [8usize, 4, 2, 1] {
                            let w = &number.to_le_bytes()[..width];
                            forms.push([w, &b].concat());
                            forms.push([&b, w].concat());
                        }
                    }
                    for f in forms {
                        if attempt(&f)? {
                            hit = Some(f);
                            break 'search;
                        }
                    }
                }
            }
        }
        let budget = if ty.n > 4096 { 3000 } else { 40000 };
        for _ in 0..budget {
            let d = data(ty, src);
            if attempt(&d)? {
                hit = Some(d);
                break 'search;
            }
        }
    }
    ctx.evals(tried);
    match hit {
        Some(d) => {
            ctx.label("capacities for which an input gives a value");
            ctx.nontrivial(&[ty.name.as_bytes()]);
            ctx.sample(|| format!("{}: found after {tried} inputs: {}", ty.name, hex(&d)));
            Ok(())
        }
        None => Err(format!("{}: none of {tried} inputs gives a value", ty.name)),
    }
}
