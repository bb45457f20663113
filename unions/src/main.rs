//! C15: union selectors.
use codec::check::*;
use codec::{Dec, Entry};
use engine::gen::{gen_val, gen_wire};
use engine::schema::*;
use engine::source::hash_bytes;
use engine::{lib, Ctx, Env, Job, Prop, Source};
use std::sync::OnceLock;

#[allow(unused_imports, dead_code, clippy::all)]
mod generated {
    include!("prelude.rs");
    include!(concat!(env!("OUT_DIR"), "/gen.rs"));
}

fn options() -> Vec<Entry> {
    use alloy_primitives::{Bytes, B256};
    use ssz::{BitList, BitVector};
    use std::sync::Arc;
    use typenum::*;
    type V = Vec<u8>;
    codec::entries![
        Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<u128>, Option<bool>, Option<B256>, Option<V>,
        Option<Bytes>, Option<Vec<u64>>, Option<Vec<V>>, Option<(u8, V)>, Option<(u16, u8)>, Option<[u8; 0]>,
        Option<Option<u8>>, Option<Option<Option<V>>>, Option<Arc<u16>>, Arc<Option<u16>>, Option<BitList<U8>>,
        Option<BitVector<U9>>, Option<std::collections::BTreeMap<u8, V>>, Option<std::num::NonZeroUsize>,
    ]
}

fn table() -> &'static [Entry] {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = options();
        for e in generated::table() {
            if v.iter().all(|x| x.name != e.name) {
                v.push(e);
            }
        }
        v
    })
}

fn variants(s: &Schema) -> Option<&Vec<Option<Schema>>> {
    match s {
        Schema::Union(v) => Some(v),
        _ => None,
    }
}

/// A body that variant `i` accepts.
fn body(vs: &[Option<Schema>], i: usize, src: &mut Source) -> Vec<u8> {
    match &vs[i] {
        None => vec![],
        Some(t) => serialize(t, &gen_val(t, src)),
    }
}

const SHAPES: usize = 8;

/// Selector x kind of body.
fn selector_case(e: &Entry, selector: u8, shape: usize, ctx: &mut Ctx) -> R {
    let vs = variants(&e.schema).unwrap();
    let n = vs.len();
    let s = selector as usize;
    let mut src = Source::random(hash_bytes(s as u64 * 16 + shape as u64, e.name.as_bytes()));
    let (what, rest) = match shape {
        0 => ("no body", vec![]),
        1 => ("body of variant selector mod n", body(vs, s % n, &mut src)),
        2 => ("body of the next variant", body(vs, (s + 1) % n, &mut src)),
        3 => ("body of the first variant", body(vs, 0, &mut src)),
        4 => ("body of the last variant", body(vs, n - 1, &mut src)),
        5 => ("body of variant selector mod 128", body(vs, (s & 127) % n, &mut src)),
        6 => {
            let k = 1 + src.below(6);
            ("random body", src.blob(k))
        }
        _ => {
            let mut b = body(vs, s % n, &mut src);
            b.push(src.below(256) as u8);
            ("body of variant selector mod n and one byte", b)
        }
    };
    let mut b = vec![selector];
    b.extend(rest);
    ctx.nontrivial(&[e.name.as_bytes(), &b]);
    ctx.label(if s >= n { "undeclared selector" } else { "declared selector" });
    ctx.sample(|| format!("{} ({n} variants) from {} [{what}]", e.name, show_bytes(&b)));
    if s >= n {
        return match e.ops.decode(&b) {
            Dec::Ok(v) => Err(format!(
                "{} has {n} variants but selector {s} is accepted: {} gives {}",
                e.name,
                show_bytes(&b),
                v.show()
            )),
            Dec::Err(_) => Ok(()),
            Dec::Panic(p) => Err(format!("{}: {} is not rejected but {p}", e.name, show_bytes(&b))),
        };
    }
    exact_bytes(e, &b, what, e.schema.has_map_or_set(), ctx)
}

/// Each variant: selector, body, way back.
fn variant_case(e: &Entry, i: usize, salt: u64, ctx: &mut Ctx) -> R {
    let vs = variants(&e.schema).unwrap();
    let mut src = Source::random(hash_bytes(salt * 1024 + i as u64, e.name.as_bytes()));
    let inner = vs[i].as_ref().map(|t| Box::new(gen_val(t, &mut src)));
    let v = Val::Union(i, inner);
    let x = lib(|| e.ops.value(&v)).map_err(|p| format!("{}: constructing {} {p}", e.name, v.show()))?;
    let b = lib(|| x.as_ssz_bytes()).map_err(|p| format!("{}: encoding {} {p}", e.name, v.show()))?;
    ctx.nontrivial(&[e.name.as_bytes(), &b]);
    if b.first().map(|s| *s as usize) != Some(i) {
        return Err(format!("{}: variant {i} encodes to {}", e.name, show_bytes(&b)));
    }
    wire_format_val(e, &v, ctx)?;
    sizes_val(e, &v, ctx)?;
    roundtrip_val(e, &v, ctx)?;
    match e.ops.decode(&[]) {
        Dec::Err(_) => {}
        Dec::Ok(v) => return Err(format!("{}: empty input decodes to {}", e.name, v.show())),
        Dec::Panic(p) => return Err(format!("{}: decoding empty input {p}", e.name)),
    }
    // Appended after something else.
    let n = src.below(9);
    let mut buf = src.blob(n);
    lib(|| x.ssz_append(&mut buf)).map_err(|p| format!("{}: appending {} {p}", e.name, v.show()))?;
    if buf[n..] != b[..] {
        return Err(format!("{}: {} appends {} but encodes to {}", e.name, v.show(), show_bytes(&buf[n..]), show_bytes(&b)));
    }
    Ok(())
}

fn split_check(b: &[u8]) -> R {
    let got = lib(|| ssz::split_union_bytes(b).map(|(s, r)| (u8::from(s), r.as_ptr() as usize, r.to_vec())))
        .map_err(|p| format!("split_union_bytes({}) {p}", show_bytes(b)))?;
    match (b.first(), got) {
        (None, Ok(_)) => Err("split_union_bytes accepts empty input".into()),
        (None, Err(_)) => Ok(()),
        (Some(s), Ok(_)) if *s > 127 => Err(format!("split_union_bytes({}) accepts a selector above 127", show_bytes(b))),
        (Some(s), Err(_)) if *s > 127 => Ok(()),
        (Some(_), Err(e)) => Err(format!("split_union_bytes({}) fails: {e:?}", show_bytes(b))),
        (Some(s), Ok((t, at, rest))) => {
            if t != *s || rest != b[1..] {
                return Err(format!("split_union_bytes({}) = ({t}, {})", show_bytes(b), show_bytes(&rest)));
            }
            if !rest.is_empty() && at != b[1..].as_ptr() as usize {
                return Err(format!("split_union_bytes({}) returns other bytes than the input's", show_bytes(b)));
            }
            Ok(())
        }
    }
}

fn selector_type(s: u8) -> R {
    let r = lib(|| ssz::UnionSelector::new(s)).map_err(|p| format!("UnionSelector::new({s}) {p}"))?;
    match r {
        Ok(_) if s > 127 => Err(format!("UnionSelector::new({s}) succeeds")),
        Err(_) if s <= 127 => Err(format!("UnionSelector::new({s}) fails")),
        Ok(x) => {
            if u8::from(x) != s || !(x == s) || (0..=255u8).any(|y| (x == y) != (y == s)) {
                return Err(format!("UnionSelector::new({s}) is {}", u8::from(x)));
            }
            Ok(())
        }
        Err(_) => Ok(()),
    }
}

fn jobs(env: &Env) -> Vec<Job> {
    let deep = env.cases(1, 16);
    let mut jobs = vec![
        Job::indexed("UnionSelector", 256, |src, ctx| {
            let s = src.draw(255) as u8;
            ctx.nontrivial(&[&[s]]);
            selector_type(s)
        }),
        Job::indexed("split_union_bytes, short strings", short_count(if deep > 1 { 3 } else { 2 }).div_ceil(256), move |src, ctx| {
            let block = src.draw(u64::MAX) * 256;
            for i in block..(block + 256).min(short_count(if deep > 1 { 3 } else { 2 })) {
                split_check(&short_string(i))?;
            }
            ctx.evals(255);
            ctx.nontrivial(&[b"split", &block.to_le_bytes()]);
            Ok(())
        }),
        // All selectors, many lengths.
        Job::indexed("split_union_bytes, lengths", 256 * 8, move |src, ctx| {
            let s = src.draw(255) as u8;
            let most = (1 + src.draw(7) as usize) * 512 * deep as usize;
            let mut b: Vec<u8> = (0..most).map(|i| (i as u64 * 0x9e37_79b9 >> 13) as u8).collect();
            b[0] = s;
            let all = &b[..];
            let ok = lib(|| {
                (most + 1 - 512 * deep as usize..=most).find(|n| match ssz::split_union_bytes(&all[..*n]) {
                    Ok((t, rest)) => s > 127 || u8::from(t) != s || rest.as_ptr() != all[1..].as_ptr() || rest.len() != n - 1,
                    Err(_) => s <= 127,
                })
            });
            ctx.evals(511);
            ctx.nontrivial(&[b"lengths", &[s], &most.to_le_bytes()]);
            match ok {
                Ok(None) => Ok(()),
                Ok(Some(n)) => split_check(&b[..n]).and(Err(format!("split_union_bytes is wrong for selector {s} and {n} bytes"))),
                Err(p) => Err(format!("split_union_bytes of up to {most} bytes with selector {s} {p}")),
            }
        }),
        Job::random("split_union_bytes", env.cases(100_000, 10), |src, ctx| {
            let n = engine::gen::gen_len(src, 5000);
            let b = src.blob(n);
            ctx.nontrivial(&[&b]);
            ctx.sample(|| show_bytes(&b));
            split_check(&b)
        }),
    ];
    for e in table() {
        if let Some(vs) = variants(&e.schema) {
            let n = vs.len();
            let big = e.schema.any(&|s| matches!(s, Schema::Map(..) | Schema::Set(_)));
            jobs.push(Job::indexed(format!("selectors {}", e.name), (256 * SHAPES) as u64, move |src, ctx| {
                let s = src.draw(255) as u8;
                let shape = src.below(SHAPES);
                selector_case(e, s, shape, ctx)
            }));
            jobs.push(Job::indexed(format!("variants {}", e.name), n as u64 * 4 * deep, move |src, ctx| {
                let i = src.below(n);
                let salt = src.draw(u64::MAX);
                variant_case(e, i, salt, ctx)
            }));
            jobs.push(Job::indexed(format!("short strings {}", e.name), short_count(2).div_ceil(256), move |src, ctx| {
                let block = src.draw(u64::MAX) * 256;
                for i in block..(block + 256).min(short_count(2)) {
                    exact_bytes(e, &short_string(i), "exhaustive", big, ctx)?;
                }
                ctx.evals(255);
                Ok(())
            }));
        } else {
            jobs.push(Job::random(format!("nested values {}", e.name), env.cases(800, 20), move |src, ctx| {
                let v = gen_val(&e.schema, src);
                wire_format_val(e, &v, ctx)?;
                roundtrip_val(e, &v, ctx)
            }));
        }
        jobs.push(Job::random(format!("bytes {}", e.name), env.cases(1_500, 20), move |src, ctx| {
            let (b, how) = gen_wire(&e.schema, src);
            ctx.label(how);
            if b.len() > 1 {
                ctx.nontrivial(&[e.name.as_bytes(), &b]);
            }
            exact_bytes(e, &b, how, e.schema.has_map_or_set(), ctx)
        }));
    }
    let level = env!("UNIONS_NOGEN");
    codec::rustc::init("unions", level);
    if level != "0" {
        jobs.push(codec::rustc::generated(include_str!(concat!(env!("OUT_DIR"), "/full.rs")), include_str!("prelude.rs")));
    }
    jobs
}

fn main() {
    engine::main(&[Prop {
        id: "C15",
        rule: "a selector followed by a body of a declared or other variant; distinct by union and bytes",
        assumptions: &[],
        death_is_violation: true,
        jobs,
    }])
}
