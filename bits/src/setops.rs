//! C12: union, intersection, difference and the subset test, against the element-wise result.
use crate::field::*;
use crate::history::{state, states};
use crate::model::*;
use engine::{Ctx, Source};

/// A result is a value of the type like any other.
fn valid(ty: &Ty, what: &str, f: &dyn Field, want: &[bool]) -> R {
    agree(ty, f, want).map_err(|e| format!("{what}: {e}"))?;
    let p = plainly(ty, want)?;
    let (eq, h) = call(|| "comparing".into(), || (f.equal(p.as_ref()), f.hashes() == p.hashes()))?;
    if eq != (true, true) || !h {
        return Err(format!("{}: {what}: not equal to {} built plainly", ty.name, show(want)));
    }
    let b = encode(ty.kind, want);
    let d = call(|| format!("{}: decoding {}", ty.name, hex(&b)), || ty.ops.decode(&b))?
        .map_err(|e| format!("{}: {what}: encodes to {} which is rejected: {e}", ty.name, hex(&b)))?;
    if call(|| "comparing".into(), || d.equal(f))? != (true, true) {
        return Err(format!("{}: {what}: does not round-trip through {}", ty.name, hex(&b)));
    }
    // It can be worked with: the last position is there, the next one is not.
    let mut g = call(|| "clone".into(), || f.dup())?;
    let n = want.len();
    let (a, b) = call(|| format!("{}: set", ty.name), || {
        (n == 0 || g.set(n - 1, true).is_ok(), g.set(n, true).is_ok())
    })?;
    if !a || b {
        return Err(format!("{}: {what}: the result of {n} bits allows set({}): {a}, set({n}): {b}", ty.name, n as i64 - 1));
    }
    Ok(())
}

fn expect(kind: Kind, cap: usize, op: &str, a: &[bool], b: &[bool]) -> Bits {
    let at = |m: &[bool], i: usize| m.get(i).copied().unwrap_or(false);
    let len = match (op, kind) {
        ("difference", _) => a.len(),
        (_, Kind::Vector) => cap,
        ("intersection", Kind::List) => a.len().min(b.len()),
        _ => a.len().max(b.len()),
    };
    (0..len)
        .map(|i| match op {
            "union" => at(a, i) | at(b, i),
            "intersection" => at(a, i) & at(b, i),
            _ => at(a, i) & !at(b, i),
        })
        .collect()
}

/// `deep`: every observation of every result; otherwise its bits, length and bytes.
pub fn pair(ty: &Ty, fa: &dyn Field, a: &[bool], fb: &dyn Field, b: &[bool], deep: bool) -> R {
    let on = |op: &str| format!("{}: {op} of {} and {}", ty.name, show(a), show(b));
    for op in ["union", "intersection", "difference"] {
        let r = call(
            || on(op),
            || match op {
                "union" => fa.union(fb),
                "intersection" => fa.intersection(fb),
                _ => Ok(fa.difference(fb)),
            },
        )?;
        let r = r.map_err(|e| format!("{} refused: {e}", on(op)))?;
        let want = expect(ty.kind, ty.cap(), op, a, b);
        let quick = call(|| on(op), || (r.len(), r.bits(), r.slice()))?;
        if deep || quick != (want.len(), want.clone(), view(&want)) {
            valid(ty, &on(op), r.as_ref(), &want)?;
        }
    }
    let mut g = call(|| "clone".into(), || fa.dup())?;
    call(|| on("difference_inplace"), || g.difference_inplace(fb))?;
    let want = expect(ty.kind, ty.cap(), "difference", a, b);
    let quick = call(|| on("difference_inplace"), || (g.len(), g.bits(), g.slice()))?;
    if deep || quick != (want.len(), want.clone(), view(&want)) {
        valid(ty, &on("difference_inplace"), g.as_ref(), &want)?;
    }
    let sub = call(|| on("is_subset"), || fa.is_subset(fb))?;
    if let Some(s) = sub {
        let want = a.iter().enumerate().all(|(i, x)| !*x || b.get(i).copied().unwrap_or(false));
        if s != want {
            return Err(format!("{} is {s}", on("is_subset")));
        }
    }
    if deep {
        agree(ty, fa, a).map_err(|e| format!("left operand afterwards: {e}"))?;
        agree(ty, fb, b).map_err(|e| format!("right operand afterwards: {e}"))?;
    }
    Ok(())
}

/// The second operand of a pair is often related to the first.
pub fn random(ty: &Ty, most: usize, src: &mut Source, ctx: &mut Ctx) -> R {
    let la = gen_len(ty, src, most);
    let a = gen_bits(src, la);
    let lb = match src.draw(5) {
        0 => la,
        1 => la.saturating_sub(1 + src.below(9)),
        2 => la.saturating_add(1 + src.below(9)),
        _ => gen_len(ty, src, most),
    };
    let lb = match ty.kind {
        Kind::Vector => la,
        Kind::List => lb.min(ty.cap()),
        Kind::Dynamic => (lb.div_ceil(8) * 8).max(8),
    };
    let mut b = match src.draw(3) {
        0 => gen_bits(src, lb),
        _ => {
            // A copy, with some bits changed.
            let mut b = a.clone();
            b.resize(lb, src.boolean());
            for _ in 0..src.below(3) {
                if lb > 0 {
                    let i = src.below(lb);
                    b[i] = !b[i];
                }
            }
            b
        }
    };
    if src.one_in(6) && lb > 0 {
        // The difference is in the last byte alone.
        let i = lb - 1 - src.below(lb.min(8));
        b[i] = !b[i];
    }
    let (fa, fb) = (plainly(ty, &a)?, plainly(ty, &b)?);
    let rel = if la == lb { "operands of equal length" } else { "operands of different lengths" };
    ctx.label(rel);
    if a.div_ceil_bytes() != b.div_ceil_bytes() {
        ctx.label("operands of different byte lengths");
    }
    if a.iter().any(|x| *x) && b.iter().any(|x| *x) {
        ctx.nontrivial(&[ty.name.as_bytes(), &encode(Kind::List, &a), &encode(Kind::List, &b)]);
    }
    ctx.sample(|| format!("{}: {} / {}", ty.name, show(&a), show(&b)));
    ctx.evals(9);
    pair(ty, fa.as_ref(), &a, fb.as_ref(), &b, true)?;
    pair(ty, fb.as_ref(), &b, fa.as_ref(), &a, false)?;
    // An operand with itself.
    pair(ty, fa.as_ref(), &a, fa.as_ref(), &a, false)
}

trait Bytes {
    fn div_ceil_bytes(&self) -> usize;
}
impl Bytes for Bits {
    fn div_ceil_bytes(&self) -> usize {
        self.len().div_ceil(8)
    }
}

/// One left operand with all right operands.
pub fn exhaustive(ty: &Ty, most: usize, src: &mut Source, ctx: &mut Ctx) -> R {
    let total = states(ty, most);
    let a = state(ty, src.draw(total - 1));
    let fa = plainly(ty, &a)?;
    ctx.sample(|| format!("{}: {} with all of {total} right operands", ty.name, show(&a)));
    if a.iter().any(|x| *x) {
        ctx.nontrivial(&[ty.name.as_bytes(), &encode(Kind::List, &a)]);
    }
    for k in 0..total {
        let b = state(ty, k);
        let fb = plainly(ty, &b)?;
        pair(ty, fa.as_ref(), &a, fb.as_ref(), &b, k % 97 == 0)?;
    }
    ctx.evals(total * 5);
    agree(ty, fa.as_ref(), &a).map_err(|e| format!("left operand afterwards: {e}"))
}
