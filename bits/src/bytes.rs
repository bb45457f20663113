//! C14: byte-level functions, SSZ codec and the validity rules accept the same strings with the same values.
use crate::bounds::judge;
use crate::field::*;
use crate::history::through;
use crate::model::*;
use engine::{Ctx, Source};

/// One byte string through every way in, and what it gives through every way out. `full` adds the ways that
/// differ in representation only.
pub fn one(ty: &Ty, b: &[u8], full: bool) -> Result<bool, String> {
    let want = decode(ty, b);
    let what = || format!("{}: {}", ty.name, hex(b));
    let (d, f, l) = call(what, || {
        let s = Bytes::from_slice(b);
        (ty.ops.decode(b), ty.ops.from_bytes(s.clone()), ty.ops.from_bytes_with_len(s, b.len() * 8))
    })?;
    let ways = [Some((d, "from_ssz_bytes")), Some((f, "from_bytes")), l.map(|l| (l, "from_bytes_with_len"))];
    let mut first: Option<Box<dyn Field>> = None;
    for (r, name) in ways.into_iter().flatten() {
        match (r, &want) {
            (Err(_), None) => {}
            (Ok(x), Some(m)) => {
                let (len, slice, ssz, into, raw, eq) = call(what, || {
                    let eq = first.as_ref().is_none_or(|f| f.equal(x.as_ref()) == (true, true));
                    (x.len(), x.slice(), x.ssz(), x.out(), x.raw(), eq)
                })?;
                if len != m.len() || slice != view(m) || ssz != b || into != b || raw != view(m) || !eq {
                    agree(ty, x.as_ref(), m).map_err(|e| format!("{name} of {}: {e}", hex(b)))?;
                    return Err(format!("{}: {name} of {}: re-encodes to {} / {}, equal to from_ssz_bytes: {eq}",
                        ty.name, hex(b), hex(&ssz), hex(&into)));
                }
                if full {
                    agree(ty, x.as_ref(), m).map_err(|e| format!("{name} of {}: {e}", hex(b)))?;
                }
                first = Some(x);
            }
            (r, w) => return judge(ty, &format!("{name} of {}", hex(b)), r, w.as_deref()).map(|_| false),
        }
    }
    if full {
        let (r, name) = through(ty, b, 5)?;
        judge(ty, &format!("{name} of {}", hex(b)), r, want.as_deref())?;
        // Strings with spare room on the stack, and on the heap.
        let mut s = Bytes::new();
        for x in b {
            s.push(*x);
        }
        let mut h = Bytes::with_capacity(b.len() + 200);
        h.extend_from_slice(b);
        for s in [s, h] {
            let r = call(what, || ty.ops.from_bytes(s))?;
            judge(ty, &format!("from_bytes of {}", hex(b)), r, want.as_deref())?;
        }
    }
    Ok(want.is_some())
}

pub fn short(total: u64, ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    // 256 strings for each number.
    let k = src.draw(total - 1);
    let mut ok = 0;
    for last in 0..=255u8 {
        let b: Vec<u8> = match k {
            0 => vec![last],
            1..=256 => vec![(k - 1) as u8, last],
            _ => {
                let k = k - 257;
                vec![k as u8, (k >> 8) as u8, last]
            }
        };
        if one(ty, &b, false)? {
            ok += 1;
        }
    }
    if k == 0 {
        one(ty, &[], true)?;
    }
    ctx.evals(255);
    if ok > 0 {
        ctx.label("blocks of 256 strings with valid ones");
        ctx.nontrivial(&[ty.name.as_bytes(), &k.to_le_bytes()]);
    }
    ctx.sample(|| format!("{}: block {k} of 256 strings, {ok} valid", ty.name));
    Ok(())
}

/// Strings near validity.
pub fn random(ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    let most = 3000;
    let n = reach(ty);
    let need = match ty.kind {
        Kind::List => n / 8 + 1,
        Kind::Vector => n.div_ceil(8).max(1),
        Kind::Dynamic => 1 + src.below(20),
    };
    let b = match src.draw(5) {
        // Valid.
        0 | 1 => {
            let l = gen_len(ty, src, most);
            encode(ty.kind, &gen_bits(src, l))
        }
        // The right number of bytes, anything in the last ones.
        2 => {
            let mut b = pack(&gen_bits(src, need * 8));
            let k = b.len() - 1;
            b[k] = src.draw(255) as u8;
            b
        }
        // A neighbouring number of bytes.
        3 => {
            let l = (need + src.below(3)).saturating_sub(src.below(3));
            let mut b = pack(&gen_bits(src, l * 8));
            if let Some(x) = b.last_mut() {
                *x = *src.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x10]);
            }
            b
        }
        4 => {
            // One bit at or near N.
            let mut m = vec![false; need * 8 + 16];
            let i = (n + src.below(17)).saturating_sub(src.below(17));
            m[i.min(need * 8 + 15)] = true;
            let mut b = pack(&m);
            let keep = match src.draw(2) {
                0 => need,
                1 => b.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1),
                _ => src.below(b.len() + 1),
            };
            b.truncate(keep);
            b
        }
        _ => {
            let l = src.below(40);
            src.blob(l)
        }
    };
    let ok = one(ty, &b, true)?;
    ctx.label(if ok { "valid string" } else { "invalid string" });
    if !b.is_empty() {
        ctx.nontrivial(&[ty.name.as_bytes(), &b]);
    }
    ctx.evals(7);
    ctx.sample(|| format!("{}: {} {}", ty.name, hex(&b), if ok { "valid" } else { "invalid" }));
    Ok(())
}

/// A value out through both encoders and in again.
pub fn value(ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    let l = gen_len(ty, src, 3000);
    let m = gen_bits(src, l);
    let mut f = plainly(ty, &m)?;
    // Also from a value that has a history.
    let mut m = m;
    if src.boolean() && l > 0 {
        let s = src.below(l + 1);
        call(|| format!("{}: shift_up({s})", ty.name), || f.shift_up(s))?.map_err(|e| format!("{}: shift_up({s}) refused: {e}", ty.name))?;
        let mut w = vec![false; l];
        w[s..].copy_from_slice(&m[..l - s]);
        m = w;
    }
    let (into, ssz) = call(|| format!("{}: encoding {}", ty.name, show(&m)), || (f.out(), f.ssz()))?;
    let want = encode(ty.kind, &m);
    if into != ssz || ssz != want {
        return Err(format!("{}: {}: into_bytes {}, as_ssz_bytes {}, should be {}", ty.name, show(&m), hex(&into), hex(&ssz), hex(&want)));
    }
    if m.iter().any(|b| *b) {
        ctx.nontrivial(&[ty.name.as_bytes(), &want]);
    }
    ctx.sample(|| format!("{}: {}", ty.name, show(&m)));
    ctx.evals(4);
    for way in 3..8 {
        let (r, name) = through(ty, &into, way)?;
        let r = r.map_err(|e| format!("{}: {name} refuses {} made from {}: {e}", ty.name, hex(&into), show(&m)))?;
        if call(|| "comparing".into(), || r.equal(f.as_ref()))? != (true, true) {
            return Err(format!("{}: {name} of {} is not the {} it was made from", ty.name, hex(&into), show(&m)));
        }
    }
    one(ty, &into, true)?;
    // The SSZ layer's own idea of the type.
    let (ef, df, el, dl) = call(|| "metadata".into(), || ty.ops.meta())?;
    let fixed = ty.kind == Kind::Vector;
    let size = if fixed { ty.cap().div_ceil(8).max(1) } else { 4 };
    if (ef, df, el, dl) != (fixed, fixed, size, size) {
        return Err(format!("{}: size metadata {:?}", ty.name, (ef, df, el, dl)));
    }
    Ok(())
}
