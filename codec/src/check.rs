//! The checks of one case of one type. Each takes its generated input from the source and compares what the
//! library does with the reference codec, or with itself.
use crate::{Dec, DynVal, Entry};
use engine::gen::{gen_val, gen_val_full, gen_wire};
use engine::schema::*;
use engine::{lib, Ctx, Source};

pub type R = Result<(), String>;

pub fn show_bytes(b: &[u8]) -> String {
    hex_short(b, 200)
}

/// Builds the Rust value, or None if the library cannot hold it (decided elsewhere).
pub fn build(e: &Entry, v: &Val, ctx: &mut Ctx) -> Option<Box<dyn DynVal>> {
    match lib(|| e.ops.value(v)) {
        Ok(x) => Some(x),
        Err(_) => {
            ctx.label("value could not be constructed");
            None
        }
    }
}

fn size_class(n: usize) -> &'static str {
    match n {
        0 => "encoding of 0 bytes",
        1..=64 => "encoding of 1..64 bytes",
        65..=255 => "encoding of 65..255 bytes",
        256..=65535 => "encoding of 256..65535 bytes",
        _ => "encoding of 65536 bytes or more",
    }
}

/// C01
pub fn roundtrip_val(e: &Entry, v: &Val, ctx: &mut Ctx) -> R {
    let Some(x) = build(e, v, ctx) else { return Ok(()) };
    ctx.sample(|| format!("{} = {}", e.name, v.show()));
    let b = lib(|| x.as_ssz_bytes()).map_err(|p| format!("encoding {} {p}", v.show()))?;
    ctx.label(size_class(b.len()));
    if b.len() > 4 {
        ctx.nontrivial(&[e.name.as_bytes(), &b]);
    }
    match lib(|| x.eq_decoded(&b)) {
        Err(p) => return Err(format!("decoding {} of {} {p}", show_bytes(&b), v.show())),
        Ok(Err(err)) => return Err(format!("{} encodes to {} which is rejected: {err:?}", v.show(), show_bytes(&b))),
        Ok(Ok(false)) => return Err(format!("{} encodes to {} which decodes to an unequal value", v.show(), show_bytes(&b))),
        Ok(Ok(true)) => {}
    }
    match e.ops.decode(&b) {
        Dec::Ok(w) if w == *v => Ok(()),
        Dec::Ok(w) => Err(format!("{} encodes to {} which decodes to {}", v.show(), show_bytes(&b), w.show())),
        Dec::Err(err) => Err(format!("{} is rejected: {err}", show_bytes(&b))),
        Dec::Panic(p) => Err(format!("decoding {} {p}", show_bytes(&b))),
    }
}

pub fn roundtrip(e: &Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let v = gen_val(&e.schema, src);
    roundtrip_val(e, &v, ctx)
}

/// C02
pub fn canonical_bytes(e: &Entry, b: &[u8], how: &str, ctx: &mut Ctx) -> R {
    ctx.sample(|| format!("{} from {} [{how}]", e.name, show_bytes(b)));
    match e.ops.reencode(b)? {
        None => {
            ctx.label("rejected");
            Ok(())
        }
        Some((out, v)) => {
            ctx.label("accepted");
            if out == b {
                Ok(())
            } else {
                Err(format!(
                    "{} is accepted as {} which encodes to {}",
                    show_bytes(b),
                    v.show(),
                    show_bytes(&out)
                ))
            }
        }
    }
}

pub fn canonical(e: &Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let (b, how) = gen_wire(&e.schema, src);
    ctx.label(how);
    if !b.is_empty() && how != "random" {
        ctx.nontrivial(&[e.name.as_bytes(), &b]);
    }
    canonical_bytes(e, &b, how, ctx)
}

/// C03
pub fn wire_format_val(e: &Entry, v: &Val, ctx: &mut Ctx) -> R {
    let Some(x) = build(e, v, ctx) else { return Ok(()) };
    ctx.sample(|| format!("{} = {}", e.name, v.show()));
    let want = serialize(&e.schema, v);
    ctx.label(size_class(want.len()));
    if !want.is_empty() {
        ctx.nontrivial(&[e.name.as_bytes(), &want]);
    }
    let got = lib(|| x.as_ssz_bytes()).map_err(|p| format!("encoding {} {p}", v.show()))?;
    if got != want {
        return Err(format!("{} encodes to {} instead of {}", v.show(), show_bytes(&got), show_bytes(&want)));
    }
    let mut buf = vec![];
    lib(|| x.ssz_append(&mut buf)).map_err(|p| format!("appending {} {p}", v.show()))?;
    if buf != want {
        return Err(format!("{} appends {} instead of {}", v.show(), show_bytes(&buf), show_bytes(&want)));
    }
    // References and Arc are their inner value.
    for (what, out) in lib(|| x.entry_points()).map_err(|p| format!("encoding {} {p}", v.show()))? {
        if what.contains("reference") && out != want {
            return Err(format!("{what}: {} encodes to {} instead of {}", v.show(), show_bytes(&out), show_bytes(&want)));
        }
    }
    let (arc, _) = lib(|| e.ops.arc(v)).map_err(|p| format!("encoding Arc of {} {p}", v.show()))?;
    if arc != want {
        return Err(format!("Arc: {} encodes to {} instead of {}", v.show(), show_bytes(&arc), show_bytes(&want)));
    }
    Ok(())
}

pub fn wire_format(e: &Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let v = gen_val_full(&e.schema, src);
    wire_format_val(e, &v, ctx)
}

/// C04: `lenient` = only the forward direction (maps and sets).
pub fn exact_bytes(e: &Entry, b: &[u8], how: &str, lenient: bool, ctx: &mut Ctx) -> R {
    let want = deserialize(&e.schema, b);
    ctx.sample(|| format!("{} from {} [{how}]: {}", e.name, show_bytes(b), match &want {
        Ok(v) => v.show(),
        Err(r) => format!("reject, {r}"),
    }));
    let got = e.ops.decode(b);
    match (&want, got) {
        (Ok(w), Dec::Ok(g)) => {
            ctx.label("accepted by both");
            if *w == g {
                Ok(())
            } else {
                Err(format!("{} decodes to {} instead of {}", show_bytes(b), g.show(), w.show()))
            }
        }
        (Err(r), Dec::Ok(g)) => Err(format!("{} is invalid ({r}) but decodes to {}", show_bytes(b), g.show())),
        (Err(r), _) => {
            ctx.label(r);
            Ok(())
        }
        (Ok(_), _) if lenient => {
            ctx.label("map or set refused");
            Ok(())
        }
        (Ok(w), Dec::Err(err)) => Err(format!("{} is the encoding of {} but is rejected: {err}", show_bytes(b), w.show())),
        (Ok(w), Dec::Panic(p)) => Err(format!("{} is the encoding of {} but decoding {p}", show_bytes(b), w.show())),
    }
}

pub fn exact(e: &Entry, lenient: bool, src: &mut Source, ctx: &mut Ctx) -> R {
    let (b, how) = gen_wire(&e.schema, src);
    ctx.label(how);
    if !b.is_empty() && how != "random" {
        ctx.nontrivial(&[e.name.as_bytes(), &b]);
    }
    exact_bytes(e, &b, how, lenient, ctx)
}

/// C07: the value part.
pub fn sizes(e: &Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let v = gen_val_full(&e.schema, src);
    sizes_val(e, &v, ctx)
}

pub fn sizes_val(e: &Entry, v: &Val, ctx: &mut Ctx) -> R {
    let Some(x) = build(e, v, ctx) else { return Ok(()) };
    ctx.sample(|| format!("{} = {}", e.name, v.show()));
    let meta = lib(|| e.ops.meta()).map_err(|p| format!("size metadata {p}"))?;
    let b = lib(|| x.as_ssz_bytes()).map_err(|p| format!("encoding {} {p}", v.show()))?;
    let n = lib(|| x.ssz_bytes_len()).map_err(|p| format!("ssz_bytes_len of {} {p}", v.show()))?;
    ctx.nontrivial(&[e.name.as_bytes(), &b]);
    if n != b.len() {
        return Err(format!("ssz_bytes_len of {} is {n} but it encodes to {} bytes", v.show(), b.len()));
    }
    for (what, n) in lib(|| x.ref_lens()).map_err(|p| format!("ssz_bytes_len through a reference {p}"))? {
        if n != b.len() {
            return Err(format!("{what} of {} is {n} but it encodes to {} bytes", v.show(), b.len()));
        }
    }
    let (_, n) = lib(|| e.ops.arc(v)).map_err(|p| format!("Arc of {} {p}", v.show()))?;
    if n != b.len() {
        return Err(format!("ssz_bytes_len of Arc of {} is {n} but it encodes to {} bytes", v.show(), b.len()));
    }
    if meta.enc_fixed && b.len() != meta.enc_len {
        return Err(format!("fixed length is {} but {} encodes to {} bytes", meta.enc_len, v.show(), b.len()));
    }
    Ok(())
}

/// C07: the metadata itself, against the schema and between the two sides.
pub fn metadata(e: &Entry, ctx: &mut Ctx) -> R {
    let m = lib(|| e.ops.meta()).map_err(|p| format!("size metadata {p}"))?;
    ctx.sample(|| format!("{}: encoder {}/{}, decoder {}/{}", e.name, m.enc_fixed, m.enc_len, m.dec_fixed, m.dec_len));
    ctx.nontrivial(&[e.name.as_bytes()]);
    for (what, fixed, len, side) in
        [("Encode", m.enc_fixed, m.enc_len, Side::Enc), ("Decode", m.dec_fixed, m.dec_len, Side::Dec)]
    {
        let want = e.schema.fixed_len(side);
        if fixed != want.is_some() || len != want.unwrap_or(4) {
            return Err(format!("{what} says fixed-size: {fixed}, fixed part: {len}; the schema says {want:?} (variable: 4)"));
        }
    }
    if !e.schema.has_one_sided_skip() && (m.enc_fixed, m.enc_len) != (m.dec_fixed, m.dec_len) {
        return Err(format!("Encode says {}/{}, Decode says {}/{}", m.enc_fixed, m.enc_len, m.dec_fixed, m.dec_len));
    }
    for (what, f, n) in lib(|| e.ops.other_meta()).map_err(|p| format!("size metadata {p}"))? {
        let enc = what.contains("Encode");
        let (wf, wn) = if enc { (m.enc_fixed, m.enc_len) } else { (m.dec_fixed, m.dec_len) };
        if (f, n) != (wf, wn) {
            return Err(format!("{what} says {f}/{n}, the type itself says {wf}/{wn}"));
        }
    }
    Ok(())
}

/// C07: a fixed-size decoder accepts only its own length.
pub fn wrong_length(e: &Entry, n: usize, src: &mut Source, ctx: &mut Ctx) -> R {
    let v = gen_val_full(&e.schema, src);
    // Valid bytes, then more of the same, so that only the length is wrong.
    let mut b = serialize(&e.schema, &v);
    let fill = src.below(3);
    let unit = b.clone();
    let mut k = 0;
    while b.len() < n {
        b.push(match fill {
            0 => 0,
            1 if !unit.is_empty() => unit[k % unit.len()],
            _ => 1,
        });
        k += 1;
    }
    b.truncate(n);
    ctx.sample(|| format!("{} from {n} bytes {}", e.name, show_bytes(&b)));
    ctx.nontrivial(&[e.name.as_bytes(), &b]);
    match e.ops.touch(&b) {
        Ok(true) => Err(format!(
            "fixed length is {:?} but {} bytes are accepted: {}",
            e.schema.fixed_len(Side::Dec),
            b.len(),
            show_bytes(&b)
        )),
        _ => Ok(()),
    }
}

/// Bytes number `i` of the enumeration of all strings by length.
pub fn short_string(mut i: u64) -> Vec<u8> {
    let mut n = 0;
    let mut count = 1u64;
    while i >= count {
        i -= count;
        n += 1;
        count = count.saturating_mul(256);
    }
    (0..n).map(|k| (i >> (8 * k)) as u8).collect()
}

/// Number of strings of length at most n.
pub fn short_count(n: u32) -> u64 {
    (0..=n).map(|k| 256u64.pow(k)).sum()
}
