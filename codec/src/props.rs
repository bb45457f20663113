//! C01-C07 and C10 over the type table.
use crate::{curated, types};
use codec::check::*;
use codec::giant::*;
use codec::{Dec, Entry};
use engine::gen::{self, gen_len, gen_u64, gen_val, gen_val_full, gen_wire, mutate};
use engine::schema::*;
use engine::{lib, Ctx, Env, Job, Probe, Prop, Source};
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, SszDecoderBuilder, SszEncoder};
use std::sync::OnceLock;

fn table() -> &'static [Entry] {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(types::all)
}

fn degenerate() -> &'static [Entry] {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(curated::degenerate)
}

fn huge() -> &'static [Entry] {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(curated::huge)
}

/// Inputs for types without values that a test can hold.
fn short_for_huge(src: &mut Source) -> (Vec<u8>, &'static str) {
    match src.below(4) {
        0 => offsets_like(src),
        1 => {
            let n = gen_len(src, 70_000);
            (vec![*src.pick(&[0u8, 1, 4, 0x80, 0xff]); n], "long uniform input")
        }
        2 => {
            // One item, wrapped in a selector or an offset.
            let n = gen_len(src, 300);
            let mut b = src.pick(&[&[1u8][..], &[0], &[4, 0, 0, 0], &[1, 1], &[5, 0, 0, 0, 7], &[9, 4, 0, 0, 0]]).to_vec();
            b.extend(src.blob(n));
            (b, "one item")
        }
        _ => {
            let n = gen_len(src, 300);
            (src.blob(n), "random")
        }
    }
}

type CaseFn = fn(&'static Entry, &mut Source, &mut Ctx) -> R;

fn per_type(filter: fn(&Schema) -> bool, tag: &str, cases: u64, f: CaseFn) -> Vec<Job> {
    table()
        .iter()
        .filter(|e| filter(&e.schema))
        .map(|e| Job::random(format!("{tag} {}", e.name), cases, move |src, ctx| f(e, src, ctx)))
        .collect()
}

/// All byte strings of length at most `n`, 256 in a case.
fn exhaustive(
    filter: fn(&Schema) -> bool,
    tag: &str,
    n: fn(&Schema) -> u32,
    f: fn(&'static Entry, &[u8], &mut Ctx) -> R,
) -> Vec<Job> {
    table()
        .iter()
        .filter(|e| filter(&e.schema))
        .map(|e| {
            let total = short_count(n(&e.schema));
            Job::indexed(format!("{tag} {}", e.name), total.div_ceil(256), move |src, ctx| {
                let block = src.draw(u64::MAX) * 256;
                for i in block..(block + 256).min(total) {
                    let b = short_string(i);
                    if !b.is_empty() {
                        ctx.nontrivial(&[e.name.as_bytes(), &b]);
                    }
                    f(e, &b, ctx)?;
                }
                ctx.evals(255);
                Ok(())
            })
        })
        .collect()
}

/// Length up to which all strings are enumerated in the quick tier.
fn short_len(s: &Schema) -> u32 {
    match s.fixed_len(Side::Dec) {
        Some(0) => 1,
        Some(n) if n <= 2 => n as u32,
        Some(_) => 1,
        None if s.min_len() <= 2 => 2,
        None => 1,
    }
}

/// Large values: offsets that need their third and fourth byte.
fn large(s: &Schema) -> bool {
    use Schema::*;
    match s {
        List(t) => matches!(&**t, List(u) if **u == Uint(1)) || **t == ByteList,
        Container(fs) => {
            fs.len() <= 5 && fs.iter().filter(|f| f.schema == List(Box::new(Uint(1))) && f.live(Side::Enc) && f.live(Side::Dec)).count() >= 2
        }
        _ => false,
    }
}

/// A value whose parts reach `size`, `size` + 1, .. bytes.
fn large_val(s: &Schema, size: usize, src: &mut Source) -> Val {
    let bytes = |n: usize, s: &Schema| -> Val {
        match s {
            Schema::ByteList => Val::Bytes(vec![7; n]),
            _ => Val::Seq(vec![Val::int(7); n]),
        }
    };
    match s {
        Schema::List(t) => {
            let first = bytes(size + src.below(3), t);
            Val::Seq(vec![bytes(1, t), first, bytes(2, t), bytes(0, t), bytes(3, t)])
        }
        Schema::Container(fs) => {
            let mut big = true;
            Val::Seq(
                fs.iter()
                    .map(|f| {
                        if f.schema == Schema::List(Box::new(Schema::Uint(1))) && f.live(Side::Enc) {
                            if big {
                                big = false;
                                return bytes(size + src.below(3), &f.schema);
                            }
                            return bytes(src.below(3), &f.schema);
                        }
                        if f.live(Side::Dec) {
                            gen::Gen { budget: 40, default_skipped: true }.val(&f.schema, src)
                        } else {
                            f.schema.default_val()
                        }
                    })
                    .collect(),
            )
        }
        _ => unreachable!(),
    }
}

fn large_jobs(filter: fn(&Schema) -> bool, env: &Env, f: fn(&'static Entry, &Val, &mut Ctx) -> R) -> Vec<Job> {
    // Names are fixed so that the number of jobs does not depend on the seed.
    let mut out = vec![];
    for (i, e) in table().iter().filter(|e| large(&e.schema) && filter(&e.schema)).enumerate() {
        for (k, size) in [255usize, 256, 65_535, 65_536, 70_000].into_iter().enumerate() {
            if !env.thorough && i > 12 && k != 3 {
                continue;
            }
            out.push(Job::random(format!("large {size} {}", e.name), 3, move |src, ctx| {
                let v = large_val(&e.schema, size - 1, src);
                f(e, &v, ctx)
            }));
        }
        // Values of a list of bytes take 48 bytes a byte in the model: 16 MiB only for `Bytes`.
        if i < 2 || matches!(&e.schema, Schema::List(t) if **t == Schema::ByteList) {
            let size = if matches!(&e.schema, Schema::List(t) if **t == Schema::ByteList) { (1 << 24) - 8 } else { 1 << 20 };
            out.push(Job::random(format!("large {size} {}", e.name), 1, move |src, ctx| {
                let v = large_val(&e.schema, size, src);
                f(e, &v, ctx)
            }));
        }
    }
    out
}

type ManyFn = fn(&'static Entry, &Val, &mut Source, &mut Ctx) -> R;

/// Parts of hundreds of items for every type, and of more than 65536 items for some.
fn many_jobs(filter: fn(&Schema) -> bool, env: &Env, f: ManyFn) -> Vec<Job> {
    let mut out = vec![];
    let curated = curated::curated().len();
    for (i, e) in table().iter().enumerate() {
        if !filter(&e.schema) || !gen::can_hold_many(&e.schema) {
            continue;
        }
        out.push(Job::random(format!("hundreds of items {}", e.name), env.cases(2, 10), move |src, ctx| {
            let n = match src.below(4) {
                0 => 124 + src.below(8),
                1 | 2 => 252 + src.below(8),
                _ => 1020 + src.below(30),
            };
            let v = gen::many_val(&e.schema, n, src);
            f(e, &v, src, ctx)
        }));
        // The curated types come first in the table.
        if i >= curated && i % 16 != 0 && !env.thorough {
            continue;
        }
        for (class, sizes) in [("above 2^16", [65_537usize, 65_540, 66_000, 65_536]), ("tens of thousands", [16_385, 32_769, 40_000, 65_535])] {
            out.push(Job::random(format!("{class} items {}", e.name), env.cases(1, 3), move |src, ctx| {
                let n = *src.pick(&sizes) + src.below(3);
                let v = gen::many_val(&e.schema, n, src);
                f(e, &v, src, ctx)
            }));
        }
        if e.schema == Schema::ByteList {
            for n in [1usize << 17, 1 << 20, 1 << 24] {
                out.push(Job::random(format!("{n} bytes of {}", e.name), 1, move |src, ctx| {
                    let v = gen::many_val(&e.schema, n + src.below(9), src);
                    f(e, &v, src, ctx)
                }));
            }
        }
    }
    out
}

/// The encoding of a value of many items, as it is or changed at one place.
fn many_wire(e: &Entry, v: &Val, src: &mut Source, ctx: &mut Ctx) -> Option<(Vec<u8>, &'static str)> {
    if e.schema.has_one_sided_skip() {
        return None;
    }
    let mut ann = Ann::default();
    let mut b = serialize_ann(&e.schema, v, &mut ann);
    let how = if src.boolean() { "many items" } else { mutate(&mut b, &ann, src) };
    ctx.label(how);
    ctx.nontrivial(&[e.name.as_bytes(), &b]);
    Some((b, how))
}

// ---------------------------------------------------------------------------------------------------------

#[derive(ssz_derive::Encode, ssz_derive::Decode, Debug, PartialEq)]
struct Gigabytes {
    a: Blob,
    b: u16,
    c: Blob,
    d: [u8; 3],
    e: Blob,
}

/// Offsets that need bit 31: what is encoded is where it should be, and comes back.
fn gigabytes(encode: bool, src: &mut Source, ctx: &mut Ctx) -> R {
    use ssz::Encode as _;
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock();
    if !to_spare(8 << 30) {
        ctx.label("skipped for want of memory");
        return Ok(());
    }
    let n = [(1usize << 31) + 5 + src.below(1000), src.below(9), 1 + src.below(9)];
    let which = src.draw(u64::MAX) % 2;
    ctx.nontrivial(&[format!("{n:?} {which}").as_bytes()]);
    ctx.sample(|| format!("{} of parts of {n:?} bytes", ["container", "list"][which as usize]));
    let mut head = vec![];
    let mut put = |b: &[u8]| head.extend_from_slice(b);
    let (out, back) = lib(|| {
        if which == 0 {
            let x = Gigabytes { a: Blob(n[0]), b: 0x1234, c: Blob(n[1]), d: [1, 2, 3], e: Blob(n[2]) };
            let out = x.as_ssz_bytes();
            let same = encode || <Gigabytes as ssz::Decode>::from_ssz_bytes(&out).map(|y| y == x).unwrap_or(false);
            let same = same && x.ssz_bytes_len() == out.len();
            (out, same)
        } else {
            let x: Vec<Blob> = n.iter().map(|n| Blob(*n)).collect();
            let out = x.as_ssz_bytes();
            let same = encode || <Vec<Blob> as ssz::Decode>::from_ssz_bytes(&out).map(|y| y == x).unwrap_or(false);
            let same = same && x.ssz_bytes_len() == out.len();
            (out, same)
        }
    })
    .map_err(|p| format!("parts of {n:?} bytes: {p}"))?;
    let word = |x: usize| (x as u32).to_le_bytes();
    if which == 0 {
        let fixed = 17;
        put(&word(fixed));
        put(&[0x34, 0x12]);
        put(&word(fixed + n[0]));
        put(&[1, 2, 3]);
        put(&word(fixed + n[0] + n[1]));
    } else {
        let fixed = 12;
        put(&word(fixed));
        put(&word(fixed + n[0]));
        put(&word(fixed + n[0] + n[1]));
    }
    let total = head.len() + n.iter().sum::<usize>();
    if out.len() != total || out[..head.len()] != head[..] {
        return Err(format!(
            "parts of {n:?} bytes encode to {} bytes that begin {} instead of {total} that begin {}",
            out.len(),
            show_bytes(&out[..head.len().min(out.len())]),
            show_bytes(&head)
        ));
    }
    let mut at = head.len();
    for n in n {
        if !is_blob(&out[at..at + n]) {
            return Err(format!("the part of {n} bytes at {at} is not the one encoded"));
        }
        at += n;
    }
    if !back {
        return Err(format!("parts of {n:?} bytes: the predicted size is wrong or the encoding does not decode to them"));
    }
    Ok(())
}

/// Predicted sizes beyond 32 bits, nothing encoded.
fn giant_sizes(src: &mut Source, ctx: &mut Ctx) -> R {
    use ssz::Encode as _;
    let n: Vec<usize> = (0..3)
        .map(|_| match src.below(4) {
            0 => (1 << 31) - 40 + src.below(80),
            1 => (1 << 32) - 60 + src.below(80),
            2 => 1 << (16 + src.below(20)),
            _ => src.below(1 << 31),
        })
        .collect();
    let sum: usize = n.iter().sum();
    ctx.nontrivial(&[format!("{n:?}").as_bytes()]);
    ctx.sample(|| format!("predicted sizes of parts of {n:?} bytes"));
    let b = |i: usize| Blob(n[i]);
    let got = lib(|| {
        [
            ("derived container", 17 + sum, Gigabytes { a: b(0), b: 0, c: b(1), d: [0; 3], e: b(2) }.ssz_bytes_len()),
            ("list", 12 + sum, vec![b(0), b(1), b(2)].ssz_bytes_len()),
            ("list of three-item list", 4 + 12 + sum, vec![vec![b(0), b(1), b(2)]].ssz_bytes_len()),
            ("tuple", 13 + n[0] + n[1], (b(0), true, b(1), 7u32).ssz_bytes_len()),
            ("Option", 1 + n[0], Some(b(0)).ssz_bytes_len()),
            ("Option of Option", 2 + n[0], Some(Some(b(0))).ssz_bytes_len()),
            ("SmallVec", 8 + n[0] + n[1], SmallVec::<[Blob; 2]>::from_vec(vec![b(0), b(1)]).ssz_bytes_len()),
            ("Arc", 12 + sum, std::sync::Arc::new(vec![b(0), b(1), b(2)]).ssz_bytes_len()),
            (
                "map",
                2 * 4 + 2 * (1 + 4) + n[0] + n[1],
                std::collections::BTreeMap::from([(1u8, b(0)), (2, b(1))]).ssz_bytes_len(),
            ),
        ]
    })
    .map_err(|p| format!("sizes of parts of {n:?} bytes: {p}"))?;
    for (what, want, got) in got {
        if want != got {
            return Err(format!("{what} of parts of {n:?} bytes: the predicted size is {got} instead of {want}"));
        }
    }
    Ok(())
}

fn in_c01(s: &Schema) -> bool {
    !s.has_trans_enum() && !s.has_zero_len_items() && !s.has_one_sided_skip()
}

fn c01(env: &Env) -> Vec<Job> {
    let mut jobs = per_type(in_c01, "value of", env.cases(300, 40), |e, src, ctx| roundtrip(e, src, ctx));
    jobs.extend(large_jobs(in_c01, env, roundtrip_val));
    jobs.extend(many_jobs(in_c01, env, |e, v, _, ctx| roundtrip_val(e, v, ctx)));
    jobs.push(Job::indexed("encodings of gigabytes", 2, |src, ctx| gigabytes(false, src, ctx)));
    // Every value of the types with few values.
    for e in table().iter().filter(|e| in_c01(&e.schema)) {
        if let Some(n) = few(&e.schema) {
            jobs.push(Job::indexed(format!("all values of {}", e.name), n, move |src, ctx| {
                let v = nth(&e.schema, src.draw(u64::MAX));
                roundtrip_val(e, &v, ctx)
            }));
        }
    }
    jobs
}

/// Number of values of a type with at most 65536 of them.
fn few(s: &Schema) -> Option<u64> {
    use Schema::*;
    let n = match s {
        Uint(1) | UintBe(1) => 256,
        Uint(2) => 65536,
        Bool => 2,
        Tag(n) => *n as u64,
        ByteVec(n) if *n <= 2 => 256u64.pow(*n as u32),
        BitVector(n) if *n <= 16 => 1 << n,
        BitList(n) if *n <= 15 => (1 << (n + 1)) - 1,
        Union(vs) => {
            let mut sum = 0u64;
            for v in vs {
                sum += match v {
                    None => 1,
                    Some(t) => few(t)?,
                };
            }
            sum
        }
        Container(fs) => {
            let mut p = 1u64;
            for f in fs {
                if f.skip_ser || f.skip_de {
                    continue;
                }
                p = p.checked_mul(few(&f.schema)?)?;
            }
            p
        }
        _ => return None,
    };
    (n <= 65536).then_some(n)
}

fn nth(s: &Schema, mut i: u64) -> Val {
    use Schema::*;
    match s {
        Uint(_) | UintBe(_) => Val::int(i as u128),
        Bool => Val::Bool(i == 1),
        Tag(_) => Val::Union(i as usize, None),
        ByteVec(n) => Val::Bytes((0..*n).map(|k| (i >> (8 * k)) as u8).collect()),
        BitVector(n) => Val::Bits((0..*n).map(|k| i >> k & 1 == 1).collect()),
        BitList(_) => {
            let mut len = 0;
            while i >= 1 << len {
                i -= 1 << len;
                len += 1;
            }
            Val::Bits((0..len).map(|k| i >> k & 1 == 1).collect())
        }
        Union(vs) => {
            for (k, v) in vs.iter().enumerate() {
                let n = v.as_ref().map_or(1, |t| few(t).unwrap());
                if i < n {
                    return Val::Union(k, v.as_ref().map(|t| Box::new(nth(t, i))));
                }
                i -= n;
            }
            unreachable!()
        }
        Container(fs) => Val::Seq(
            fs.iter()
                .map(|f| {
                    if f.skip_ser || f.skip_de {
                        return f.schema.default_val();
                    }
                    let n = few(&f.schema).unwrap();
                    let v = nth(&f.schema, i % n);
                    i /= n;
                    v
                })
                .collect(),
        ),
        _ => unreachable!(),
    }
}

fn in_c02(s: &Schema) -> bool {
    in_c01(s) && !s.has_map_or_set()
}

fn c02(env: &Env) -> Vec<Job> {
    let mut jobs = per_type(in_c02, "bytes for", env.cases(500, 40), |e, src, ctx| canonical(e, src, ctx));
    jobs.extend(exhaustive(in_c02, "all short strings for", short_len, |e, b, ctx| canonical_bytes(e, b, "exhaustive", ctx)));
    jobs.extend(many_jobs(in_c02, env, |e, v, src, ctx| match many_wire(e, v, src, ctx) {
        Some((b, how)) => canonical_bytes(e, &b, how, ctx),
        None => Ok(()),
    }));
    if env.thorough {
        jobs.extend(three(in_c02, |e, b, ctx| canonical_bytes(e, b, "exhaustive", ctx)));
    }
    jobs
}

/// All strings of three bytes, for a few small types.
fn three(filter: fn(&Schema) -> bool, f: fn(&'static Entry, &[u8], &mut Ctx) -> R) -> Vec<Job> {
    table()
        .iter()
        .filter(|e| filter(&e.schema) && (e.schema.min_len() <= 3 && e.schema.fixed_len(Side::Dec).is_none() || e.schema.fixed_len(Side::Dec) == Some(3)))
        .map(|e| {
            Job::indexed(format!("all strings of three bytes for {}", e.name), 65536, move |src, ctx| {
                let i = src.draw(u64::MAX);
                for k in 0..256u64 {
                    f(e, &[i as u8, (i >> 8) as u8, k as u8], ctx)?;
                }
                ctx.evals(255);
                Ok(())
            })
        })
        .collect()
}

fn any(_: &Schema) -> bool {
    true
}

fn no_zero(s: &Schema) -> bool {
    !s.has_zero_len_items()
}

fn c03(env: &Env) -> Vec<Job> {
    let mut jobs = per_type(any, "value of", env.cases(300, 40), |e, src, ctx| wire_format(e, src, ctx));
    jobs.extend(large_jobs(any, env, wire_format_val));
    jobs.extend(many_jobs(any, env, |e, v, _, ctx| wire_format_val(e, v, ctx)));
    jobs.push(Job::indexed("encodings of gigabytes", 2, |src, ctx| gigabytes(true, src, ctx)));
    for e in table().iter() {
        if let Some(n) = few(&e.schema) {
            jobs.push(Job::indexed(format!("all values of {}", e.name), n, move |src, ctx| {
                let v = nth(&e.schema, src.draw(u64::MAX));
                wire_format_val(e, &v, ctx)
            }));
        }
    }
    jobs
}

fn c04(env: &Env) -> Vec<Job> {
    let mut jobs = per_type(no_zero, "bytes for", env.cases(500, 40), |e, src, ctx| {
        exact(e, e.schema.has_map_or_set(), src, ctx)
    });
    jobs.extend(exhaustive(no_zero, "all short strings for", short_len, |e, b, ctx| {
        exact_bytes(e, b, "exhaustive", e.schema.has_map_or_set(), ctx)
    }));
    jobs.extend(many_jobs(no_zero, env, |e, v, src, ctx| match many_wire(e, v, src, ctx) {
        Some((b, how)) => exact_bytes(e, &b, how, e.schema.has_map_or_set(), ctx),
        None => Ok(()),
    }));
    jobs.extend(large_jobs(no_zero, env, |e, v, ctx| {
        if e.schema.has_one_sided_skip() {
            return Ok(());
        }
        let b = serialize(&e.schema, v);
        ctx.nontrivial(&[e.name.as_bytes(), &b]);
        exact_bytes(e, &b, "large valid", e.schema.has_map_or_set(), ctx)?;
        let mut c = b.clone();
        c.push(0);
        if let Some(n) = e.schema.fixed_len(Side::Dec) {
            c.truncate(n);
        }
        exact_bytes(e, &c, "large, one more byte", e.schema.has_map_or_set(), ctx)
    }));
    if env.thorough {
        jobs.extend(three(no_zero, |e, b, ctx| exact_bytes(e, b, "exhaustive", e.schema.has_map_or_set(), ctx)));
    }
    jobs
}

// ---------------------------------------------------------------------------------------------------------
// C05
// ---------------------------------------------------------------------------------------------------------

fn no_panic(e: &Entry, b: &[u8], how: &str, ctx: &mut Ctx) -> R {
    ctx.sample(|| format!("{} from {} [{how}]", e.name, show_bytes(b)));
    match e.ops.touch(b) {
        Ok(ok) => {
            ctx.label(if ok { "accepted" } else { "rejected" });
            Ok(())
        }
        Err(p) => Err(format!("decoding {} from {} {p}", e.name, show_bytes(b))),
    }
}

fn c05_case(e: &'static Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let (mut b, how) = gen_wire(&e.schema, src);
    // Further damage: C05 has no other oracle to keep honest.
    if src.one_in(4) {
        for _ in 0..1 + src.below(4) {
            mutate(&mut b, &Ann::default(), src);
        }
    }
    if !b.is_empty() {
        ctx.nontrivial(&[e.name.as_bytes(), &b]);
    }
    no_panic(e, &b, how, ctx)?;
    if src.one_in(4) {
        // The list helper with any limit, for any item type.
        let list = Schema::List(Box::new(e.schema.clone()));
        let (b, _) = if e.schema.fixed_len(Side::Dec).is_none() { gen_wire(&list, src) } else { offsets_like(src) };
        let max = any_limit(src);
        ctx.label("list helper");
        lib(|| e.ops.decode_list(&b, max).is_ok())
            .map_err(|p| format!("decode_list_of_variable_length_items::<{}>({}, {max:?}) {p}", e.name, show_bytes(&b)))?;
    }
    Ok(())
}

fn any_limit(src: &mut Source) -> Option<usize> {
    match src.below(6) {
        0 => None,
        1 => Some(0),
        2 => Some(usize::MAX),
        3 => Some(gen_u64(src) as usize),
        _ => Some(src.below(9)),
    }
}

/// Bytes that start like an offset table.
fn offsets_like(src: &mut Source) -> (Vec<u8>, &'static str) {
    let n = src.below(6);
    let mut b = vec![];
    for i in 0..n {
        let o = match src.below(6) {
            0..=2 => (n * 4) as u32 + src.below(6 * (i + 1)) as u32,
            3 => (n * 4) as u32,
            4 => *src.pick(&[0u32, 1, 2, 3, 4, 5, 8, 12, u32::MAX, u32::MAX - 3, 1 << 31, (1 << 31) - 4, 1 << 30, 0x4000]),
            _ => gen_u64(src) as u32,
        };
        b.extend_from_slice(&o.to_le_bytes());
    }
    let k = gen_len(src, 40);
    b.extend(src.blob(k));
    (b, "offset table")
}

macro_rules! byte_ctors {
    ($($n:ty),*) => {
        fn bit_ctors() -> Vec<(String, fn(&[u8]) -> (bool, bool))> {
            vec![$((
                format!("{}", <$n as typenum::Unsigned>::U64),
                (|b: &[u8]| {
                    (
                        BitList::<$n>::from_bytes(SmallVec::from_slice(b)).is_ok(),
                        BitVector::<$n>::from_bytes(SmallVec::from_slice(b)).is_ok(),
                    )
                }) as fn(&[u8]) -> (bool, bool),
            )),*]
        }
    };
}
use typenum::*;
byte_ctors!(
    U0, U1, U2, U3, U4, U5, U6, U7, U8, U9, U10, U11, U12, U13, U14, U15, U16, U17, U23, U24, U25, U31, U32, U33, U63,
    U64, U65, U127, U128, U129, U255, U256, U257, U511, U512, U513, U1000, U1023, U1024, U2048, U4096, U8192
);

/// A registration sequence and the bytes it is used on.
fn builder_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let n = match src.below(4) {
        0 => src.below(3),
        1 | 2 => 1 + src.below(8),
        _ => 7 + src.below(6),
    };
    let kinds: Vec<(bool, usize)> = (0..n)
        .map(|_| {
            let len = match src.below(8) {
                0 => 0,
                1 => *src.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - 3, usize::MAX / 2 + 1, 1 << 32, 1 << 31]),
                2 => gen_u64(src) as usize,
                _ => src.below(10),
            };
            // The fixed part of anything variable is 4 bytes long.
            if src.boolean() { (true, len) } else { (false, 4) }
        })
        .collect();
    let fixed: usize = kinds.iter().map(|(f, l)| if *f { (*l).min(64) } else { 4 }).sum();
    let mut b = match src.below(3) {
        0 => {
            let k = fixed + src.below(12);
            src.blob(k)
        }
        _ => {
            // Offsets in the right places.
            let mut b = vec![];
            let mut at = fixed;
            let tail = src.below(24);
            for (f, l) in &kinds {
                if *f {
                    b.extend(std::iter::repeat_n(1u8, (*l).min(64)));
                } else {
                    b.extend_from_slice(&(at as u32).to_le_bytes());
                    at = (at + src.below(6)).min(fixed + tail);
                }
            }
            b.extend(src.blob(tail));
            b
        }
    };
    if src.one_in(3) {
        for _ in 0..1 + src.below(3) {
            mutate(&mut b, &Ann::default(), src);
        }
    }
    ctx.sample(|| format!("builder {kinds:?} on {}", show_bytes(&b)));
    ctx.nontrivial(&[format!("{kinds:?}").as_bytes(), &b]);
    let anonymous = src.boolean();
    lib(|| {
        let mut builder = SszDecoderBuilder::new(&b);
        for (f, l) in &kinds {
            let r = if !f && anonymous {
                builder.register_anonymous_variable_length_item()
            } else {
                builder.register_type_parameterized(*f, *l)
            };
            if r.is_err() {
                return "registration stopped";
            }
        }
        match builder.build() {
            Err(_) => "build refused",
            Ok(mut d) => {
                for _ in &kinds {
                    let _ = d.decode_next_with(|s| Ok(s.len()));
                }
                "decoded"
            }
        }
    })
    .map(|l| ctx.label(l))
    .map_err(|p| format!("builder with {kinds:?} on {} {p}", show_bytes(&b)))
}

/// Typed registration: whatever the types, decoding what was registered never panics.
fn typed_builder_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let t = table();
    let n = src.below(11);
    let picks: Vec<usize> = (0..n).map(|_| src.below(t.len())).collect();
    let schema = container(picks.iter().map(|i| t[*i].schema.clone()).collect());
    let (b, how) = gen_wire(&schema, src);
    let names = || picks.iter().map(|i| t[*i].name.clone()).collect::<Vec<_>>().join(", ");
    ctx.sample(|| format!("builder for ({}) on {} [{how}]", names(), show_bytes(&b)));
    ctx.nontrivial(&[names().as_bytes(), &b]);
    lib(|| {
        let mut builder = SszDecoderBuilder::new(&b);
        for i in &picks {
            if t[*i].ops.register(&mut builder).is_err() {
                return;
            }
        }
        if let Ok(mut d) = builder.build() {
            for i in &picks {
                if t[*i].ops.decode_next(&mut d).is_err() {
                    return;
                }
            }
        }
    })
    .map_err(|p| format!("builder for ({}) on {} {p}", names(), show_bytes(&b)))
}

#[derive(ssz_derive::Encode, ssz_derive::Decode)]
struct Nested {
    children: Vec<Nested>,
}

/// The encoding of `Nested` with one child in a child in a child ...
fn nested(depth: usize) -> Vec<u8> {
    [4u8, 0, 0, 0].repeat(2 * depth + 1)
}

pub fn probes() -> Vec<Probe> {
    vec![Probe {
        prop: "C05",
        name: "recursive-type",
        what: "a type that contains itself through a list overflows the stack on 8 bytes per level (200000 levels, 1600004 bytes)",
        run: || {
            let b = nested(200_000);
            let r = <Nested as ssz::Decode>::from_ssz_bytes(&b);
            // Dropping a deep value recurses too, and that is not decoding.
            std::mem::forget(r);
        },
    }]
}

fn c05(env: &Env) -> Vec<Job> {
    let mut jobs = per_type(any, "bytes for", env.cases(500, 40), c05_case);
    jobs.extend(exhaustive(any, "all short strings for", short_len, |e, b, ctx| no_panic(e, b, "exhaustive", ctx)));
    for e in degenerate() {
        jobs.push(Job::random(format!("zero-length items {}", e.name), env.cases(500, 40), move |src, ctx| {
            c05_case(e, src, ctx)
        }));
        jobs.push(Job::indexed(format!("zero-length items, short strings {}", e.name), 257, move |src, ctx| {
            let b = short_string(src.draw(u64::MAX));
            ctx.nontrivial(&[e.name.as_bytes(), &b]);
            no_panic(e, &b, "exhaustive", ctx)
        }));
    }
    for e in huge() {
        jobs.push(Job::random(format!("huge {}", e.name), env.cases(300, 40), move |src, ctx| {
            let (b, how) = short_for_huge(src);
            ctx.nontrivial(&[e.name.as_bytes(), &b]);
            no_panic(e, &b, how, ctx)
        }));
    }
    jobs.extend(many_jobs(any, env, |e, v, src, ctx| match many_wire(e, v, src, ctx) {
        Some((b, how)) => no_panic(e, &b, how, ctx),
        None => Ok(()),
    }));
    // A type that contains itself, to a depth any stack holds.
    jobs.push(Job::random("recursive type", env.cases(300, 20), |src, ctx| {
        let depth = src.below(200);
        let mut b = nested(depth);
        if src.boolean() {
            mutate(&mut b, &Ann::default(), src);
        }
        ctx.nontrivial(&[&b]);
        ctx.sample(|| format!("Nested, {depth} levels: {}", show_bytes(&b)));
        lib(|| <Nested as ssz::Decode>::from_ssz_bytes(&b).is_ok())
            .map(|ok| ctx.label(if ok { "accepted" } else { "rejected" }))
            .map_err(|p| format!("decoding Nested from {} {p}", show_bytes(&b)))
    }));
    jobs.push(Job::random("builder", env.cases(40_000, 50), builder_case));
    jobs.push(Job::random("typed builder", env.cases(10_000, 50), typed_builder_case));
    jobs.push(Job::random("read_offset and split_union_bytes", env.cases(5_000, 20), |src, ctx| {
        let (b, _) = offsets_like(src);
        ctx.nontrivial(&[&b]);
        ctx.sample(|| show_bytes(&b));
        lib(|| (ssz::read_offset(&b).is_ok(), ssz::split_union_bytes(&b).is_ok()))
            .map(|_| ())
            .map_err(|p| format!("read_offset / split_union_bytes on {} {p}", show_bytes(&b)))
    }));
    jobs.push(Job::indexed("helpers on short strings", short_count(2), |src, ctx| {
        let b = short_string(src.draw(u64::MAX));
        ctx.nontrivial(&[&b]);
        lib(|| (ssz::read_offset(&b).is_ok(), ssz::split_union_bytes(&b).is_ok()))
            .map(|_| ())
            .map_err(|p| format!("read_offset / split_union_bytes on {} {p}", show_bytes(&b)))
    }));
    for (name, f) in bit_ctors() {
        let n: usize = name.parse().unwrap();
        jobs.push(Job::random(format!("from_bytes of BitList and BitVector of {name}"), env.cases(600, 40), move |src, ctx| {
            let schema = if src.boolean() { Schema::BitList(n) } else { Schema::BitVector(n) };
            let (b, how) = gen_wire(&schema, src);
            ctx.nontrivial(&[name.as_bytes(), &b]);
            ctx.sample(|| format!("{} [{how}]", show_bytes(&b)));
            lib(|| f(&b)).map(|_| ()).map_err(|p| format!("from_bytes with N = {name} on {} {p}", show_bytes(&b)))
        }));
    }
    jobs.push(Job::random("from_bytes_with_len", env.cases(10_000, 40), |src, ctx| {
        let k = gen_len(src, 300);
        let b = src.blob(k);
        let len = match src.below(4) {
            0 => k * 8,
            1 => (k * 8 + src.below(20)).saturating_sub(10),
            _ => gen_u64(src) as usize,
        };
        ctx.nontrivial(&[&b, &len.to_le_bytes()]);
        ctx.sample(|| format!("from_bytes_with_len({} bytes, {len})", b.len()));
        lib(|| BitVectorDynamic::from_bytes_with_len(SmallVec::from_slice(&b), len).is_ok())
            .map(|_| ())
            .map_err(|p| format!("from_bytes_with_len({}, {len}) {p}", show_bytes(&b)))
    }));
    jobs
}

// ---------------------------------------------------------------------------------------------------------
// C06
// ---------------------------------------------------------------------------------------------------------

fn bounded(e: &Entry, b: &[u8], how: &str, ctx: &mut Ctx) -> R {
    let heap = e.ops.heap();
    let bound = heap.bound(b.len());
    let (r, st) = engine::alloc::tracked(|| e.ops.touch(b));
    ctx.sample(|| format!(
        "{} from {} [{how}]: peak {} of {:.0} allowed, largest request {}",
        e.name,
        show_bytes(b),
        st.peak,
        bound,
        st.largest
    ));
    ctx.label(match &r {
        Ok(true) => "accepted",
        Ok(false) => "rejected",
        // C05's business; the statistics count all the same.
        Err(_) => "panicked",
    });
    if st.peak as f64 > bound || st.largest as f64 > bound {
        return Err(format!(
            "decoding {} from {} bytes {}: peak {} bytes, largest request {} bytes, {:.0} allowed ({:?})",
            e.name,
            b.len(),
            show_bytes(b),
            st.peak,
            st.largest,
            bound,
            heap
        ));
    }
    Ok(())
}

/// Claims far more than is there: huge first offsets, huge counts, and long inputs of tiny items.
fn claims(s: &Schema, src: &mut Source) -> (Vec<u8>, &'static str) {
    match src.below(6) {
        0 | 1 => {
            let v = gen_val_full(s, src);
            let mut ann = Ann::default();
            let mut b = serialize_ann(s, &v, &mut ann);
            let how = "offset words raised";
            if ann.offsets.is_empty() {
                return gen_wire(s, src);
            }
            for _ in 0..1 + src.below(3) {
                let p = *src.pick(&ann.offsets);
                let big = match src.below(5) {
                    0 => *src.pick(&[u32::MAX - 3, 1 << 31, 1 << 30, 1 << 29, 1 << 28, 1 << 24, 1 << 20, 1 << 16]),
                    1 => (b.len() as u32).wrapping_add(4) & !3,
                    2 => b.len() as u32 & !3,
                    3 => (gen_u64(src) as u32) & !3,
                    _ => (b.len() as u32).wrapping_mul(4),
                };
                if p + 4 <= b.len() {
                    b[p..p + 4].copy_from_slice(&big.to_le_bytes());
                }
            }
            (b, how)
        }
        2 => offsets_like(src),
        3 => {
            // As many items as the input can hold: an offset table that fills it.
            let n = 1 + gen_len(src, 3000);
            let first = (n * 4) as u32;
            let mut b = vec![];
            for _ in 0..n {
                b.extend_from_slice(&first.to_le_bytes());
            }
            if src.boolean() {
                // The last item is bad.
                b.extend_from_slice(&[9]);
            }
            if src.one_in(3) {
                let k = src.below(b.len() + 1);
                b.truncate(k);
            }
            (b, "offset table and nothing else")
        }
        4 => {
            let unit = s.fixed_len(Side::Dec).unwrap_or(4).max(1);
            let n = unit * gen_len(src, (40_000 / unit).max(2)) + src.below(2);
            (vec![*src.pick(&[0u8, 1, 4, 0xff]); n], "long uniform input")
        }
        _ => gen_wire(s, src),
    }
}

fn c06(env: &Env) -> Vec<Job> {
    let mut jobs = per_type(any, "bytes for", env.cases(400, 40), |e, src, ctx| {
        let (b, how) = claims(&e.schema, src);
        ctx.label(how);
        if b.len() >= 4 {
            ctx.nontrivial(&[e.name.as_bytes(), &b]);
        }
        bounded(e, &b, how, ctx)
    });
    for e in degenerate() {
        jobs.push(Job::random(format!("zero-length items {}", e.name), env.cases(200, 40), move |src, ctx| {
            let (b, how) = claims(&e.schema, src);
            ctx.nontrivial(&[e.name.as_bytes(), &b]);
            bounded(e, &b, how, ctx)
        }));
    }
    for e in huge() {
        jobs.push(Job::random(format!("huge {}", e.name), env.cases(300, 40), move |src, ctx| {
            let (b, how) = short_for_huge(src);
            ctx.nontrivial(&[e.name.as_bytes(), &b]);
            bounded(e, &b, how, ctx)
        }));
    }
    jobs.extend(many_jobs(any, env, |e, v, src, ctx| match many_wire(e, v, src, ctx) {
        Some((b, how)) => bounded(e, &b, how, ctx),
        None => Ok(()),
    }));
    // The list helper with any limit.
    for e in table().iter().filter(|e| e.schema.fixed_len(Side::Dec).is_none()) {
        jobs.push(Job::random(format!("list helper {}", e.name), env.cases(60, 40), move |src, ctx| {
            let list = Schema::List(Box::new(e.schema.clone()));
            let (b, how) = claims(&list, src);
            let max = any_limit(src);
            ctx.nontrivial(&[e.name.as_bytes(), &b, format!("{max:?}").as_bytes()]);
            let (r, st) = engine::alloc::tracked(|| lib(|| e.ops.touch_list(&b, max)));
            let bound = e.ops.list_heap().bound(b.len());
            ctx.label(if r == Ok(true) { "accepted" } else { "rejected" });
            ctx.sample(|| format!("Vec<{}> with limit {max:?} from {} [{how}]: peak {}", e.name, show_bytes(&b), st.peak));
            if st.peak as f64 > bound || st.largest as f64 > bound {
                return Err(format!(
                    "list of {} with limit {max:?} from {} bytes {}: peak {}, largest request {}, {bound:.0} allowed",
                    e.name,
                    b.len(),
                    show_bytes(&b),
                    st.peak,
                    st.largest
                ));
            }
            Ok(())
        }));
    }
    jobs
}

// ---------------------------------------------------------------------------------------------------------

fn c07(env: &Env) -> Vec<Job> {
    let mut jobs = per_type(any, "value of", env.cases(250, 40), |e, src, ctx| sizes(e, src, ctx));
    jobs.extend(large_jobs(any, env, sizes_val));
    jobs.extend(many_jobs(any, env, |e, v, _, ctx| sizes_val(e, v, ctx)));
    jobs.push(Job::random("sizes of gigabytes", env.cases(5_000, 20), giant_sizes));
    for e in table().iter() {
        let Some(n) = e.schema.fixed_len(Side::Dec) else { continue };
        let copies = e.schema.any(&|s| matches!(s, Schema::BitVector(_)));
        jobs.push(Job::indexed(format!("far too long for {}", e.name), if copies { 3 } else { 5 }, move |src, ctx| {
            let more = [1usize << 8, 1 << 16, 1 << 20, 1 << 31, 1 << 32][src.below(5)];
            let b = giant();
            ctx.nontrivial(&[e.name.as_bytes(), &more.to_le_bytes()]);
            ctx.sample(|| format!("{} from {n} + {more} zeros", e.name));
            match e.ops.touch(&b[..n + more]) {
                Ok(true) => Err(format!("fixed length is {n} but {n} + {more} zeros are accepted")),
                _ => Ok(()),
            }
        }));
    }
    for e in table().iter().chain(degenerate()).chain(huge()) {
        jobs.push(Job::indexed(format!("metadata of {}", e.name), 1, move |_, ctx| metadata(e, ctx)));
    }
    for e in table().iter() {
        let Some(n) = e.schema.fixed_len(Side::Dec) else { continue };
        let top = n + 70;
        jobs.push(Job::random(format!("wrong length for {}", e.name), (top as u64 * 3).min(env.cases(300, 20)), move |src, ctx| {
            // Nearby lengths, multiples, everything below and some above.
            let len = match src.below(4) {
                0 => n.saturating_sub(1 + src.below(8)),
                1 => n + 1 + src.below(8),
                2 => n * (2 + src.below(4)),
                _ => src.below(top),
            };
            let len = if len == n { n + 1 } else { len };
            wrong_length(e, len, src, ctx)
        }));
        jobs.push(Job::indexed(format!("empty and one-off lengths for {}", e.name), 4 * 3, move |src, ctx| {
            let k = src.below(4);
            let len = [0, n.wrapping_sub(1), n + 1, n * 2][k];
            if len == n || len == usize::MAX {
                return Ok(());
            }
            wrong_length(e, len, src, ctx)
        }));
    }
    jobs
}

// ---------------------------------------------------------------------------------------------------------
// C10
// ---------------------------------------------------------------------------------------------------------

fn prefix(src: &mut Source) -> Vec<u8> {
    let n = match src.below(4) {
        0 => 0,
        1 => 1 + src.below(4),
        2 => gen_len(src, 300),
        _ => src.below(40),
    };
    let mut p = match src.below(3) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => src.blob(n),
    };
    // The spare capacity of the buffer must not matter either.
    if src.boolean() {
        p.reserve_exact(src.below(200));
    } else {
        p.shrink_to_fit();
    }
    p
}

fn append_case(e: &'static Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let v = gen_val_full(&e.schema, src);
    let p = prefix(src);
    append_after(e, &v, p, ctx)
}

/// A buffer that already holds tens of thousands of bytes, or a million.
fn long_prefix(src: &mut Source) -> Vec<u8> {
    let n = src.pick(&[255usize, 65_530, 65_536, 131_071, 200_000, 1 << 20]) + src.below(9);
    let mut p = src.blob(64).repeat(n / 64 + 1);
    p.truncate(n);
    p
}

/// Every way to append `v` to `p` and to encode it on its own gives the same bytes.
fn append_after(e: &'static Entry, v: &Val, p: Vec<u8>, ctx: &mut Ctx) -> R {
    let Some(x) = build(e, v, ctx) else { return Ok(()) };
    ctx.sample(|| format!("{} = {} after a prefix of {} bytes", e.name, v.show(), p.len()));
    let enc = |p: String| format!("encoding {} {p}", v.show());
    let alone = lib(|| x.as_ssz_bytes()).map_err(enc)?;
    if !p.is_empty() && !alone.is_empty() {
        ctx.nontrivial(&[e.name.as_bytes(), &alone, &p]);
    }
    let mut buf = p.clone();
    lib(|| x.ssz_append(&mut buf)).map_err(enc)?;
    let mut want = p.clone();
    want.extend_from_slice(&alone);
    if buf != want {
        return Err(format!(
            "{} appended to {} gives {} instead of {}",
            v.show(),
            show_bytes(&p),
            show_bytes(&buf),
            show_bytes(&want)
        ));
    }
    // Twice in a row.
    lib(|| x.ssz_append(&mut buf)).map_err(enc)?;
    want.extend_from_slice(&alone);
    if buf != want {
        return Err(format!("{} appended twice to {} gives {}", v.show(), show_bytes(&p), show_bytes(&buf)));
    }
    for (what, out) in lib(|| x.entry_points()).map_err(enc)? {
        if out != alone {
            return Err(format!("{what}: {} instead of {} for {}", show_bytes(&out), show_bytes(&alone), v.show()));
        }
    }
    for (what, out) in lib(|| x.append_points(&p)).map_err(enc)? {
        if out[..p.len().min(out.len())] != p[..] || out[p.len()..] != alone[..] {
            return Err(format!("{what} of {} after {}: {}", v.show(), show_bytes(&p), show_bytes(&out)));
        }
    }
    let (arc, _) = lib(|| e.ops.arc(v)).map_err(enc)?;
    if arc != alone {
        return Err(format!("Arc: {} instead of {} for {}", show_bytes(&arc), show_bytes(&alone), v.show()));
    }
    // The same value again: nothing is remembered.
    let again = lib(|| x.as_ssz_bytes()).map_err(enc)?;
    if again != alone {
        return Err(format!("encoding {} a second time gives {}", v.show(), show_bytes(&again)));
    }
    Ok(())
}

/// The manual encoder with the fields of a container.
fn manual_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let t = table();
    let n = match src.below(4) {
        0 => src.below(3),
        1 | 2 => 2 + src.below(6),
        _ => 8 + src.below(6),
    };
    let style = src.below(3);
    let mut fields = vec![];
    let mut schemas = vec![];
    let mut shown = vec![];
    for _ in 0..n {
        let mut e = &t[src.below(t.len())];
        for _ in 0..8 {
            let fixed = e.schema.fixed_len(Side::Enc).is_some();
            if style == 1 && fixed || style == 2 && !fixed {
                e = &t[src.below(t.len())];
            }
        }
        let v = gen::Gen { budget: 60, default_skipped: false }.val(&e.schema, src);
        let Some(x) = build(e, &v, ctx) else { return Ok(()) };
        shown.push(format!("{} = {}", e.name, v.show()));
        schemas.push(e);
        fields.push(x);
    }
    let p = prefix(src);
    let how: Vec<usize> = (0..n).map(|_| src.below(3)).collect();
    ctx.sample(|| format!("manual container of [{}] after {} bytes", shown.join("; "), p.len()));
    let metas: Vec<_> = lib(|| schemas.iter().map(|e| e.ops.meta()).collect()).map_err(|p| format!("metadata {p}"))?;
    let parts: Vec<Vec<u8>> =
        lib(|| fields.iter().map(|x| x.as_ssz_bytes()).collect()).map_err(|p| format!("encoding {p}"))?;
    // What the same fields give as a container, from their standalone encodings.
    let body = assemble(
        metas.iter().zip(&parts).map(|(m, b)| (m.enc_fixed, b.clone(), Ann::default())).collect(),
        &mut Ann::default(),
    );
    let fixed: usize = metas.iter().map(|m| m.enc_len).sum();
    let mut want = p.clone();
    want.extend_from_slice(&body);
    ctx.nontrivial(&[&want, &p]);
    ctx.label(if metas.iter().all(|m| m.enc_fixed) { "all fields fixed" } else { "some field variable" });
    let mut buf = p.clone();
    let got = lib(|| {
        let mut e = SszEncoder::container(&mut buf, fixed);
        for (i, x) in fields.iter().enumerate() {
            match how[i] {
                0 => x.append_to(&mut e),
                1 => e.append_parameterized(metas[i].enc_fixed, |b| x.ssz_append(b)),
                _ => e.append_parameterized(metas[i].enc_fixed, |b| b.extend_from_slice(&parts[i])),
            }
        }
        e.finalize().clone()
    })
    .map_err(|p| format!("manual container of [{}] {p}", shown.join("; ")))?;
    if got != buf {
        return Err(format!("finalize returns {} but the buffer holds {}", show_bytes(&got), show_bytes(&buf)));
    }
    if buf != want {
        return Err(format!(
            "manual container of [{}] after {}: {} instead of {}",
            shown.join("; "),
            show_bytes(&p),
            show_bytes(&buf),
            show_bytes(&want)
        ));
    }
    Ok(())
}

/// The manual encoder over the fields of a derived or tuple container equals the container's own encoding.
fn same_fields_case(e: &'static Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let Schema::Container(fs) = &e.schema else { return Ok(()) };
    let v = gen_val_full(&e.schema, src);
    let Some(x) = build(e, &v, ctx) else { return Ok(()) };
    let p = prefix(src);
    let alone = lib(|| x.as_ssz_bytes()).map_err(|p| format!("encoding {} {p}", v.show()))?;
    ctx.nontrivial(&[e.name.as_bytes(), &alone, &p]);
    ctx.sample(|| format!("{} = {} by hand after {} bytes", e.name, v.show(), p.len()));
    let parts: Vec<(bool, Vec<u8>)> = fs
        .iter()
        .zip(v.seq())
        .filter(|(f, _)| f.live(Side::Enc))
        .map(|(f, x)| (f.schema.fixed_len(Side::Enc).is_some(), serialize(&f.schema, x)))
        .collect();
    let fixed = parts.iter().map(|(f, b)| if *f { b.len() } else { 4 }).sum();
    let mut buf = p.clone();
    lib(|| {
        let mut e = SszEncoder::container(&mut buf, fixed);
        for (f, b) in &parts {
            e.append_parameterized(*f, |out| out.extend_from_slice(b));
        }
        e.finalize();
    })
    .map_err(|p| format!("manual encoder for {} {p}", v.show()))?;
    if buf[..p.len()] != p[..] || buf[p.len()..] != alone[..] {
        return Err(format!(
            "{} encodes to {} but by hand after {} to {}",
            v.show(),
            show_bytes(&alone),
            show_bytes(&p),
            show_bytes(&buf)
        ));
    }
    Ok(())
}

fn c10(env: &Env) -> Vec<Job> {
    let mut jobs = per_type(any, "append", env.cases(250, 40), append_case);
    jobs.extend(per_type(|s| matches!(s, Schema::Container(_)), "by hand", env.cases(100, 40), same_fields_case));
    jobs.push(Job::random("manual container", env.cases(30_000, 40), manual_case));
    jobs.extend(per_type(any, "long prefix for", env.cases(3, 20), |e, src, ctx| {
        let v = gen_val_full(&e.schema, src);
        append_after(e, &v, long_prefix(src), ctx)
    }));
    jobs.extend(large_jobs(any, env, |e, v, ctx| append_after(e, v, vec![9; 300], ctx)));
    jobs.extend(many_jobs(any, env, |e, v, src, ctx| {
        let p = if src.boolean() { prefix(src) } else { long_prefix(src) };
        append_after(e, v, p, ctx)
    }));
    jobs
}

pub fn all() -> Vec<Prop> {
    let _ = (gen_val, |d: Dec| d);
    vec![
        Prop {
            id: "C01",
            rule: "the value's encoding is longer than 4 bytes; distinct by type and encoding",
            assumptions: &[],
            death_is_violation: true,
            jobs: c01,
        },
        Prop {
            id: "C02",
            rule: "a non-empty input made from a valid encoding (as is, with a local fault, mutated, spliced) or enumerated; distinct by type and bytes",
            assumptions: &[],
            death_is_violation: true,
            jobs: c02,
        },
        Prop {
            id: "C03",
            rule: "the reference encoding is not empty; distinct by type and encoding",
            assumptions: &[],
            death_is_violation: true,
            jobs: c03,
        },
        Prop {
            id: "C04",
            rule: "a non-empty input made from a valid encoding (as is, with a local fault, mutated, spliced) or enumerated; distinct by type and bytes",
            assumptions: &[],
            death_is_violation: true,
            jobs: c04,
        },
        Prop {
            id: "C05",
            rule: "a non-empty input; distinct by type (or helper and its arguments) and bytes",
            assumptions: &["built with overflow checks and debug assertions, so an arithmetic overflow is a panic"],
            death_is_violation: true,
            jobs: c05,
        },
        Prop {
            id: "C06",
            rule: "an input of at least 4 bytes; distinct by type and bytes",
            assumptions: &["the bound per type is computed from the structure of the type: see heap.rs"],
            death_is_violation: true,
            jobs: c06,
        },
        Prop {
            id: "C07",
            rule: "every case; distinct by type and encoding (values), type (metadata), type and bytes (wrong lengths)",
            assumptions: &[],
            death_is_violation: true,
            jobs: c07,
        },
        Prop {
            id: "C10",
            rule: "prefix and encoding are both non-empty; distinct by type, encoding and prefix",
            assumptions: &[],
            death_is_violation: true,
            jobs: c10,
        },
    ]
}
