//! C09 (offset tables), C16 (limits and fallible collections), C17 (legacy option), C19 (maps and sets).
use crate::curated;
use crate::legacy;
use codec::check::*;
use codec::giant::*;
use codec::{Dec, Entry};
use engine::gen::{gen_len, gen_u64, gen_wire, mutate, Gen};
use engine::schema::*;
use engine::{lib, Ctx, Env, Job, Prop, Source};
use smallvec::SmallVec;
use ssz::{Decode, DecodeError, Encode, SszDecoderBuilder, TryFromIter};
use ssz_derive::{Decode as DeriveDecode, Encode as DeriveEncode};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};

fn table() -> &'static [Entry] {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(curated::curated)
}

// ---------------------------------------------------------------------------------------------------------
// Probes: items that record the slices they are given.
// ---------------------------------------------------------------------------------------------------------

thread_local! {
    static SEEN: RefCell<Vec<(usize, Vec<u8>)>> = const { RefCell::new(vec![]) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn begin() {
    SEEN.with(|s| s.borrow_mut().clear());
    CALLS.with(|c| c.set(0));
}

fn seen() -> Vec<(usize, Vec<u8>)> {
    SEEN.with(|s| s.borrow().clone())
}

fn calls() -> u64 {
    CALLS.with(|c| c.get())
}

/// What a probe refuses: an item that starts with this byte.
const BAD: u8 = 0xBD;

fn record(b: &[u8]) -> Result<(), DecodeError> {
    CALLS.with(|c| c.set(c.get() + 1));
    SEEN.with(|s| s.borrow_mut().push((b.as_ptr() as usize, b.to_vec())));
    if b.first() == Some(&BAD) {
        return Err(DecodeError::BytesInvalid("probe".into()));
    }
    Ok(())
}

/// Variable-size item.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Probe(Vec<u8>);

impl Encode for Probe {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        self.0.len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.0)
    }
}

impl Decode for Probe {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        record(b)?;
        Ok(Probe(b.to_vec()))
    }
}

/// Fixed-size item.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Fixed<const N: usize>(Vec<u8>);

impl<const N: usize> Encode for Fixed<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn ssz_bytes_len(&self) -> usize {
        N
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.0)
    }
}

impl<const N: usize> Decode for Fixed<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        record(b)?;
        if b.len() != N {
            return Err(DecodeError::InvalidByteLength { len: b.len(), expected: N });
        }
        Ok(Fixed(b.to_vec()))
    }
}

/// Compares what the items were given with the parts they own.
fn handed(parts: &[&[u8]], got: &[(usize, Vec<u8>)]) -> R {
    for (i, p) in parts.iter().enumerate() {
        let Some((at, b)) = got.get(i) else {
            return Err(format!("item {i} of {} was not decoded", parts.len()));
        };
        if b != p {
            return Err(format!("item {i} was given {} instead of {}", show_bytes(b), show_bytes(p)));
        }
        if !p.is_empty() && *at != p.as_ptr() as usize {
            return Err(format!(
                "item {i} was given equal bytes from another place ({} bytes away)",
                (*at as i128) - (p.as_ptr() as usize as i128)
            ));
        }
    }
    if got.len() != parts.len() {
        return Err(format!("{} items were decoded, the input has {}", got.len(), parts.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------
// C09
// ---------------------------------------------------------------------------------------------------------

fn item_count(src: &mut Source) -> usize {
    match src.below(8) {
        0 => src.below(3),
        1..=4 => 1 + src.below(7),
        5 | 6 => 7 + src.below(6),
        _ => 12 + src.below(40),
    }
}

fn kinds_of(src: &mut Source) -> Vec<Option<usize>> {
    let n = item_count(src);
    kinds_n(n, src)
}

fn kinds_n(n: usize, src: &mut Source) -> Vec<Option<usize>> {
    let style = src.below(5);
    (0..n)
        .map(|_| {
            let variable = match style {
                0 => true,
                1 => false,
                2 => src.one_in(4),
                3 => !src.one_in(4),
                _ => src.boolean(),
            };
            if variable {
                None
            } else {
                Some(if src.one_in(6) { gen_len(src, 300) } else { src.below(9) })
            }
        })
        .collect()
}

fn schema_of(kinds: &[Option<usize>]) -> Schema {
    container(kinds.iter().map(|k| k.map_or(Schema::ByteList, Schema::ByteVec)).collect())
}

/// Runs the builder as documented: stops at the first error, decodes exactly what was registered.
fn run_builder(kinds: &[Option<usize>], how: &[u8], b: &[u8]) -> Result<Result<Vec<(usize, Vec<u8>)>, String>, String> {
    lib(|| {
        let mut builder = SszDecoderBuilder::new(b);
        for (i, k) in kinds.iter().enumerate() {
            let r = match k {
                Some(n) => builder.register_type_parameterized(true, *n),
                None => match how[i] {
                    0 => builder.register_anonymous_variable_length_item(),
                    1 => builder.register_type::<Probe>(),
                    _ => builder.register_type_parameterized(false, 4),
                },
            };
            if let Err(e) = r {
                return Err(format!("registering item {i}: {e:?}"));
            }
        }
        let mut d = builder.build().map_err(|e| format!("building: {e:?}"))?;
        let mut out = vec![];
        for i in 0..kinds.len() {
            let x = d
                .decode_next_with(|s| Ok((s.as_ptr() as usize, s.to_vec())))
                .map_err(|e| format!("decoding item {i}: {e:?}"))?;
            out.push(x);
        }
        Ok(out)
    })
}

fn judge_builder(kinds: &[Option<usize>], how: &[u8], b: &[u8], ctx: &mut Ctx) -> R {
    let want = split_parts(kinds, b);
    let at = || format!("items {kinds:?} on {}", show_bytes(b));
    match (want, run_builder(kinds, how, b)) {
        (Ok(parts), Ok(Ok(got))) => {
            ctx.label("layout accepted");
            handed(&parts, &got).map_err(|m| format!("{}: {m}", at()))
        }
        (Err(r), Ok(Ok(_))) => Err(format!("{} is accepted: {r}", at())),
        (Err(r), _) => {
            ctx.label(r);
            Ok(())
        }
        (Ok(_), Ok(Err(e))) => Err(format!("{} is a valid layout but is rejected: {e}", at())),
        (Ok(_), Err(p)) => Err(format!("{} is a valid layout but the builder {p}", at())),
    }
}

fn builder_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let kinds = kinds_of(src);
    layout_case(kinds, src, ctx)
}

/// Hundreds and thousands of items.
fn long_builder_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let n = match src.below(8) {
        0 | 1 => 120 + src.below(20),
        2..=5 => 250 + src.below(20),
        6 => 300 + src.below(300),
        _ => 1020 + src.below(10),
    };
    let kinds = kinds_n(n, src);
    layout_case(kinds, src, ctx)
}

fn layout_case(kinds: Vec<Option<usize>>, src: &mut Source, ctx: &mut Ctx) -> R {
    let how: Vec<u8> = kinds.iter().map(|_| src.below(3) as u8).collect();
    let (b, what) = gen_wire(&schema_of(&kinds), src);
    ctx.label(what);
    ctx.sample(|| format!("{kinds:?} on {} [{what}]", show_bytes(&b)));
    if kinds.iter().any(|k| k.is_none()) && b.len() >= 4 {
        ctx.nontrivial(&[format!("{kinds:?}").as_bytes(), &b]);
    }
    judge_builder(&kinds, &how, &b, ctx)
}

/// Offset words chosen independently of each other around the right places.
fn offset_words_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let kinds = kinds_of(src);
    let how = vec![2u8; kinds.len()];
    let fixed: usize = kinds.iter().map(|k| k.unwrap_or(4)).sum();
    let tail = src.below(10);
    let len = fixed + tail;
    let mut b = src.blob(len);
    let mut at = 0;
    let mut last = fixed;
    let mut first = true;
    for k in &kinds {
        match k {
            Some(n) => at += n,
            None => {
                let o = match src.below(12) {
                    0 => len + src.below(3),
                    1 => last.wrapping_sub(1 + src.below(4)),
                    2 => fixed + src.below(tail + 2),
                    3 if first => fixed + src.below(3),
                    4 => gen_u64(src) as usize,
                    5 => last.wrapping_add(1 << 16),
                    6 => last.wrapping_add(1 << 24),
                    7 => last.wrapping_add(1 << 8),
                    _ if first => fixed,
                    _ => last.saturating_add(src.below(4)).min(len),
                };
                b[at..at + 4].copy_from_slice(&(o as u32).to_le_bytes());
                last = o;
                first = false;
                at += 4;
            }
        }
    }
    ctx.sample(|| format!("{kinds:?} on {}", show_bytes(&b)));
    if !first {
        ctx.nontrivial(&[format!("{kinds:?}").as_bytes(), &b]);
    }
    judge_builder(&kinds, &how, &b, ctx)
}

/// Fixed parts longer than any input.
fn huge_parts_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let mut kinds = kinds_of(src);
    let k = 1 + src.below(3);
    for _ in 0..k {
        let at = src.below(kinds.len() + 1);
        let n = match src.below(4) {
            0 => usize::MAX - src.below(12),
            1 => usize::MAX / 2 + src.below(3),
            2 => 1usize << (16 + src.below(48)),
            _ => gen_u64(src) as usize,
        };
        kinds.insert(at, Some(n));
    }
    let how: Vec<u8> = kinds.iter().map(|_| src.below(3) as u8).collect();
    let n = src.below(80);
    let mut b = src.blob(n);
    // Plausible offsets, so that registration gets as far as the huge part.
    let mut at = 0usize;
    for k in &kinds {
        match k {
            None if at + 4 <= b.len() => {
                let o = src.below(b.len() + 1) as u32;
                b[at..at + 4].copy_from_slice(&o.to_le_bytes());
                at += 4;
            }
            Some(n) if *n < 64 => at += n,
            _ => break,
        }
    }
    ctx.sample(|| format!("{kinds:?} on {}", show_bytes(&b)));
    ctx.nontrivial(&[format!("{kinds:?}").as_bytes(), &b]);
    judge_builder(&kinds, &how, &b, ctx)
}

/// Items of real types.
fn typed_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let t = table();
    let n = item_count(src).min(16);
    let style = src.below(3);
    let picks: Vec<&Entry> = (0..n)
        .map(|_| {
            let mut e = &t[src.below(t.len())];
            for _ in 0..6 {
                if (style == 1) == e.schema.fixed_len(Side::Dec).is_some() {
                    e = &t[src.below(t.len())];
                }
            }
            e
        })
        .collect();
    let schema = container(picks.iter().map(|e| e.schema.clone()).collect());
    let (b, what) = gen_wire(&schema, src);
    let names = || picks.iter().map(|e| e.name.clone()).collect::<Vec<_>>().join(", ");
    ctx.sample(|| format!("({}) on {} [{what}]", names(), show_bytes(&b)));
    if b.len() >= 4 {
        ctx.nontrivial(&[names().as_bytes(), &b]);
    }
    let kinds: Vec<_> = picks.iter().map(|e| e.schema.fixed_len(Side::Dec)).collect();
    let want = split_parts(&kinds, &b);
    let got = lib(|| {
        let mut builder = SszDecoderBuilder::new(&b);
        for e in &picks {
            e.ops.register(&mut builder).map_err(|e| format!("registering: {e:?}"))?;
        }
        let mut d = builder.build().map_err(|e| format!("building: {e:?}"))?;
        let mut out = vec![];
        for e in &picks {
            match e.ops.decode_next(&mut d) {
                Ok(v) => out.push(Ok(v)),
                Err(x) => {
                    out.push(Err(format!("{x:?}")));
                    break;
                }
            }
        }
        Ok::<_, String>(out)
    });
    let at = || format!("({}) on {}", names(), show_bytes(&b));
    match (want, got) {
        (Err(r), Ok(Ok(_))) => Err(format!("{}: the layout is accepted: {r}", at())),
        (Err(r), _) => {
            ctx.label(r);
            Ok(())
        }
        (Ok(_), Err(p)) => Err(format!("{}: {p}", at())),
        (Ok(_), Ok(Err(e))) => Err(format!("{} is a valid layout but is rejected: {e}", at())),
        (Ok(parts), Ok(Ok(got))) => {
            ctx.label("layout accepted");
            for (i, g) in got.iter().enumerate() {
                match (g, deserialize(&picks[i].schema, parts[i])) {
                    (Ok(v), Ok(w)) if *v == w => {}
                    (Ok(v), Ok(w)) => return Err(format!("{}: item {i} is {} instead of {}", at(), v.show(), w.show())),
                    (Err(_), Err(_)) => {}
                    (Ok(v), Err(r)) => return Err(format!("{}: item {i} is {} although {} is invalid ({r})", at(), v.show(), show_bytes(parts[i]))),
                    (Err(_), Ok(_)) if picks[i].schema.has_map_or_set() => {}
                    (Err(e), Ok(w)) => return Err(format!("{}: item {i} should be {} but is rejected: {e}", at(), w.show())),
                }
            }
            Ok(())
        }
    }
}

fn list_bytes(src: &mut Source, big: bool) -> (Vec<u8>, &'static str) {
    let list = Schema::List(Box::new(Schema::ByteList));
    if !big {
        return gen_wire(&list, src);
    }
    // Many items: offsets beyond one and two bytes.
    let n = *src.pick(&[63usize, 64, 65, 127, 128, 129, 255, 256, 300, 1000, 1023, 1024, 4095, 16_383, 16_384, 16_385, 20_000, 65_535, 65_536, 65_540, 70_000]);
    let sizes = src.below(3);
    let mut items = Vec::with_capacity(n);
    for i in 0..n {
        items.push(Val::Bytes(vec![i as u8; match sizes {
            0 => 0,
            1 => i % 3,
            _ => usize::from(i % 97 == 0) * 40,
        }]));
    }
    let mut b = serialize(&list, &Val::Seq(items));
    let what = match src.below(4) {
        0 => {
            let p = 4 * src.below(n);
            let w = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
            let d = *src.pick(&[1i64, -1, 4, -4, 256, -256, 65536, -65536]);
            b[p..p + 4].copy_from_slice(&((w as i64 + d) as u32).to_le_bytes());
            "many items, one offset moved"
        }
        1 => {
            let k = src.below(b.len() + 1);
            b.truncate(k);
            "many items, truncated"
        }
        _ => "many items",
    };
    (b, what)
}

fn list_case(big: bool) -> impl Fn(&mut Source, &mut Ctx) -> R {
    move |src, ctx| {
        let (mut b, what) = list_bytes(src, big);
        if src.one_in(8) {
            mutate(&mut b, &Ann::default(), src);
        }
        let which = src.below(6);
        ctx.label(what);
        ctx.sample(|| format!("list {} [{what}]", show_bytes(&b)));
        if b.len() >= 4 {
            ctx.nontrivial(&[&b, &[which as u8]]);
        }
        let want = split_list(&b);
        begin();
        let got = lib(|| match which {
            0 => Vec::<Probe>::from_ssz_bytes(&b).map(|v| v.into_iter().map(|p| p.0).collect::<Vec<_>>()),
            1 => SmallVec::<[Probe; 4]>::from_ssz_bytes(&b).map(|v| v.into_iter().map(|p| p.0).collect()),
            2 => ssz::decode_list_of_variable_length_items::<Probe, Vec<Probe>>(&b, None)
                .map(|v| v.into_iter().map(|p| p.0).collect()),
            3 => ssz::decode_list_of_variable_length_items::<Probe, Vec<Probe>>(&b, Some(usize::MAX))
                .map(|v| v.into_iter().map(|p| p.0).collect()),
            4 => Arc::<Vec<Probe>>::from_ssz_bytes(&b).map(|v| v.iter().map(|p| p.0.clone()).collect()),
            _ => BTreeSet::<Probe>::from_ssz_bytes(&b).map(|v| v.into_iter().map(|p| p.0).collect()),
        });
        let slices = seen();
        let at = || show_bytes(&b);
        match (want, got) {
            (Err(r), Ok(Ok(_))) => Err(format!("list {} is accepted: {r}", at())),
            (Err(r), _) => {
                ctx.label(r);
                Ok(())
            }
            (Ok(_), Err(p)) => Err(format!("list {}: {p}", at())),
            (Ok(parts), Ok(r)) => {
                // Items are decoded in order; the first bad one ends the decoding.
                let upto = parts.iter().position(|p| p.first() == Some(&BAD)).map_or(parts.len(), |i| i + 1);
                handed(&parts[..upto], &slices).map_err(|m| format!("list {}: {m}", at()))?;
                let bad = upto != parts.len() || parts.last().is_some_and(|p| p.first() == Some(&BAD));
                match r {
                    Ok(_) if bad => Err(format!("list {} is accepted although an item was refused", at())),
                    Err(_) if bad => Ok(()),
                    Err(e) => Err(format!("list {} is valid but is rejected: {e:?}", at())),
                    Ok(items) => {
                        let mut want: Vec<Vec<u8>> = parts.iter().map(|p| p.to_vec()).collect();
                        if which == 5 {
                            want.sort();
                            want.dedup();
                        }
                        ctx.label("list accepted");
                        if items != want {
                            return Err(format!("list {} gives {} items, not the {} it holds", at(), items.len(), want.len()));
                        }
                        Ok(())
                    }
                }
            }
        }
    }
}

#[derive(DeriveEncode, DeriveDecode, Debug, PartialEq)]
struct D1 {
    a: Probe,
    b: Fixed<3>,
    c: Probe,
}
#[derive(DeriveEncode, DeriveDecode, Debug, PartialEq)]
struct D2 {
    a: Fixed<1>,
    b: Probe,
    c: Fixed<0>,
    d: Probe,
    e: Probe,
    f: Fixed<5>,
}
#[derive(DeriveEncode, DeriveDecode, Debug, PartialEq)]
struct D3 {
    a: Fixed<2>,
    b: Fixed<7>,
    c: Fixed<1>,
}
#[derive(DeriveEncode, DeriveDecode, Debug, PartialEq)]
struct D4 {
    a: Probe,
    #[ssz(skip_serializing, skip_deserializing)]
    b: u64,
    c: Probe,
    #[ssz(skip_serializing, skip_deserializing)]
    d: Vec<u8>,
    e: Fixed<4>,
    f: Probe,
    g: Probe,
    h: Probe,
    i: Fixed<2>,
    j: Probe,
    k: Probe,
    l: Probe,
}
#[derive(DeriveEncode, DeriveDecode, Debug, PartialEq)]
struct D5 {
    a: Probe,
}

type P = Probe;
type Decoder = fn(&[u8]) -> Result<(), DecodeError>;

fn containers() -> Vec<(&'static str, Vec<Option<usize>>, Decoder)> {
    fn d<T: Decode>(b: &[u8]) -> Result<(), DecodeError> {
        T::from_ssz_bytes(b).map(|_| ())
    }
    const V: Option<usize> = None;
    vec![
        ("struct D1", vec![V, Some(3), V], d::<D1>),
        ("struct D2", vec![Some(1), V, Some(0), V, V, Some(5)], d::<D2>),
        ("struct D3", vec![Some(2), Some(7), Some(1)], d::<D3>),
        ("struct D4", vec![V, V, Some(4), V, V, V, Some(2), V, V, V], d::<D4>),
        ("struct D5", vec![V], d::<D5>),
        ("(F2, P)", vec![Some(2), V], d::<(Fixed<2>, P)>),
        ("(P, F2)", vec![V, Some(2)], d::<(P, Fixed<2>)>),
        ("(F2, F3)", vec![Some(2), Some(3)], d::<(Fixed<2>, Fixed<3>)>),
        ("(P, P, P)", vec![V; 3], d::<(P, P, P)>),
        ("(P, F1, P, F2)", vec![V, Some(1), V, Some(2)], d::<(P, Fixed<1>, P, Fixed<2>)>),
        ("(F1, P, P, F2, P)", vec![Some(1), V, V, Some(2), V], d::<(Fixed<1>, P, P, Fixed<2>, P)>),
        ("(P x 6)", vec![V; 6], d::<(P, P, P, P, P, P)>),
        ("(P, F1, P, F0, P, F9, P)", vec![V, Some(1), V, Some(0), V, Some(9), V],
            d::<(P, Fixed<1>, P, Fixed<0>, P, Fixed<9>, P)>),
        ("(F1 x 8)", vec![Some(1); 8],
            d::<(Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>)>),
        ("(P x 9)", vec![V; 9], d::<(P, P, P, P, P, P, P, P, P)>),
        ("(F1 x 9, P)", vec![Some(1), Some(1), Some(1), Some(1), Some(1), Some(1), Some(1), Some(1), Some(1), V],
            d::<(Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, P)>),
        ("(P, F1 x 5, P x 5)", vec![V, Some(1), Some(1), Some(1), Some(1), Some(1), V, V, V, V, V],
            d::<(P, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, Fixed<1>, P, P, P, P, P)>),
        ("(P x 12)", vec![V; 12], d::<(P, P, P, P, P, P, P, P, P, P, P, P)>),
    ]
}

fn container_case(kinds: &[Option<usize>], decode: Decoder, src: &mut Source, ctx: &mut Ctx) -> R {
    let (b, what) = gen_wire(&schema_of(kinds), src);
    ctx.label(what);
    ctx.sample(|| format!("{} [{what}]", show_bytes(&b)));
    if b.len() >= 4 {
        ctx.nontrivial(&[format!("{kinds:?}").as_bytes(), &b]);
    }
    let want = split_parts(kinds, &b);
    begin();
    let got = lib(|| decode(&b));
    let slices = seen();
    match (want, got) {
        (Err(r), Ok(Ok(()))) => Err(format!("{} is accepted: {r}", show_bytes(&b))),
        (Err(r), _) => {
            ctx.label(r);
            Ok(())
        }
        (Ok(_), Err(p)) => Err(format!("{}: {p}", show_bytes(&b))),
        (Ok(parts), Ok(r)) => {
            let upto = parts.iter().position(|p| p.first() == Some(&BAD)).map_or(parts.len(), |i| i + 1);
            let bad = parts.iter().any(|p| p.first() == Some(&BAD));
            handed(&parts[..upto], &slices).map_err(|m| format!("{}: {m}", show_bytes(&b)))?;
            if r.is_ok() == bad {
                return Err(format!("{}: result {r:?} although an item was refused: {bad}", show_bytes(&b)));
            }
            ctx.label("layout accepted");
            Ok(())
        }
    }
}

fn offset_word(x: u32) -> R {
    let le = [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8];
    if ssz::encode_length(x as usize) != le {
        return Err(format!("encode_length({x}) = {:?} instead of {le:?}", ssz::encode_length(x as usize)));
    }
    match ssz::read_offset(&le) {
        Ok(y) if y == x as usize => Ok(()),
        r => Err(format!("read_offset({le:?}) = {r:?} instead of {x}")),
    }
}

// ---------------------------------------------------------------------------------------------------------
// Inputs of gigabytes: a zeroed block that is written only where the offset words are.
// ---------------------------------------------------------------------------------------------------------

fn giant_len(src: &mut Source) -> usize {
    match src.below(6) {
        0 => (1 << 31) - 4 + src.below(12),
        1 => (1 << 32) - 8 + src.below(8),
        2 => (1 << 32) + src.below(100),
        3 => (3 << 30) + src.below(1 << 20),
        4 => (1 << 24) - 4 + src.below(12),
        _ => (1 << 28) + src.below(3 << 30),
    }
}

fn giant_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let len = giant_len(src);
    let n = 1 + src.below(6);
    let as_list = src.below(4);
    let mut kinds: Vec<Option<usize>> = (0..n)
        .map(|_| if as_list == 0 || !src.one_in(3) { None } else { Some(src.below(9)) })
        .collect();
    if as_list == 3 && src.one_in(3) {
        // A fixed-size part of about the size of the input.
        let at = src.below(n);
        kinds[at] = Some(len.saturating_sub(src.below(64)));
    }
    if as_list >= 2 && n >= 3 {
        // The shape of the tuple below.
        kinds.truncate(3);
        if as_list == 2 {
            kinds = vec![None, Some(2), None];
        }
    }
    let fixed: usize = kinds.iter().map(|k| k.unwrap_or(4)).fold(0, usize::saturating_add);
    // Where the offset words are and what they say.
    let mut words = vec![];
    let (mut at, mut last) = (0usize, fixed);
    for k in &kinds {
        let Some(n) = k else {
            let first = words.is_empty();
            let o = match src.below(10) {
                0 => len + src.below(3) - 1,
                1 => last.wrapping_sub(1 + src.below(4)),
                2 => *src.pick(&[1usize << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 24, 1 << 16, 0x8000_0001]),
                3 if first => fixed + src.below(3),
                4 => last.wrapping_add(1 << 31),
                _ if first => fixed,
                5 | 6 => last + (len.saturating_sub(last) / 2),
                7 => last.max(1 << 31).min(len),
                _ => last.saturating_add(src.below(1 << 20)).min(len),
            };
            // A list whose first offset is inside the input has that many items.
            let o = if as_list == 0 && words.is_empty() && o as u32 as usize <= len { fixed } else { o };
            words.push((at, o as u32));
            last = o as u32 as usize;
            at = at.saturating_add(4);
            continue;
        };
        at = at.saturating_add(*n);
    }
    let mut buffer = giant();
    words.retain(|(at, _)| at + 4 <= len);
    for (at, w) in &words {
        buffer[*at..at + 4].copy_from_slice(&w.to_le_bytes());
    }
    let b = &buffer[..len];
    let shown = format!("{len} bytes with offset words {words:x?}");
    ctx.sample(|| format!("items {kinds:?} on {shown}"));
    ctx.nontrivial(&[format!("{kinds:?}").as_bytes(), shown.as_bytes()]);
    let list = || -> Result<Vec<Window>, DecodeError> {
        match len % 3 {
            0 => Vec::<Window>::from_ssz_bytes(b),
            1 => SmallVec::<[Window; 2]>::from_ssz_bytes(b).map(|v| v.into_vec()),
            _ => ssz::decode_list_of_variable_length_items(b, Some(n)),
        }
    };
    let want = if as_list == 0 { split_list(b) } else { split_parts(&kinds, b) };
    let got = lib(|| match as_list {
        0 => list(),
        2 if n >= 3 => <(Window, u16, Window)>::from_ssz_bytes(b).map(|(a, k, c)| {
            let mut v = vec![a, Window(b.as_ptr() as usize + 4, 2), c];
            // The number is read from its own place.
            if k.to_le_bytes() != b[4..6] {
                v.clear();
            }
            v
        }),
        _ => {
            let mut builder = SszDecoderBuilder::new(b);
            for (i, k) in kinds.iter().enumerate() {
                match k {
                    Some(n) => builder.register_type_parameterized(true, *n)?,
                    None if i % 2 == 0 => builder.register_type::<Window>()?,
                    None => builder.register_anonymous_variable_length_item()?,
                }
            }
            let mut d = builder.build()?;
            kinds
                .iter()
                .map(|k| match k {
                    None => d.decode_next::<Window>(),
                    Some(_) => d.decode_next_with(Window::from_ssz_bytes),
                })
                .collect()
        }
    });
    let verdict = match (want, got) {
        (Ok(parts), Ok(Ok(items))) => {
            ctx.label("layout accepted");
            let parts: Vec<Window> = parts.iter().map(|p| Window(p.as_ptr() as usize, p.len())).collect();
            let same = items.len() == parts.len()
                && items.iter().zip(&parts).all(|(g, w)| g.1 == w.1 && (w.1 == 0 || g.0 == w.0));
            if same {
                Ok(())
            } else {
                let base = b.as_ptr() as usize;
                let show = |v: &[Window]| v.iter().map(|w| (w.0.wrapping_sub(base), w.1)).collect::<Vec<_>>();
                Err(format!("items {kinds:?} on {shown}: parts {:x?} instead of {:x?}", show(&items), show(&parts)))
            }
        }
        (Err(r), Ok(Ok(_))) => Err(format!("items {kinds:?} on {shown}: accepted: {r}")),
        (Err(r), _) => {
            ctx.label(r);
            Ok(())
        }
        (Ok(_), Ok(Err(e))) => Err(format!("items {kinds:?} on {shown}: a valid layout but {e:?}")),
        (Ok(_), Err(p)) => Err(format!("items {kinds:?} on {shown}: a valid layout but {p}")),
    };
    for (at, _) in &words {
        buffer[*at..at + 4].fill(0);
    }
    verdict
}

fn c09(env: &Env) -> Vec<Job> {
    let mut jobs = vec![
        Job::random("builder", env.cases(450_000, 26), builder_case),
        Job::random("builder, hundreds of items", env.cases(3_000, 20), long_builder_case),
        Job::random("builder, offset words moved", env.cases(450_000, 26), offset_words_case),
        Job::random("inputs of gigabytes", env.cases(20_000, 20), giant_case),
        Job::random("builder, huge fixed parts", env.cases(90_000, 26), huge_parts_case),
        Job::random("builder with real types", env.cases(120_000, 26), typed_case),
        Job::random("lists", env.cases(300_000, 26), list_case(false)),
        Job::random("lists of many items", env.cases(1_200, 12), list_case(true)),
        // 65536 words in a case.
        Job::indexed("offset words", 65536, |src, ctx| {
            let hi = src.draw(u64::MAX) as u32;
            ctx.evals(65535);
            if hi % 256 == 1 {
                ctx.nontrivial(&[&hi.to_le_bytes()]);
            }
            lib(|| (0..65536u32).try_for_each(|lo| offset_word(hi << 16 | lo))).unwrap_or_else(|p| Err(format!("offset words from {:#x} {p}", hi << 16)))
        }),
        Job::random("offset words among other bytes", env.cases(60_000, 12), |src, ctx| {
            let n = src.below(12);
            let b = src.blob(n);
            ctx.nontrivial(&[&b]);
            ctx.sample(|| format!("read_offset({})", show_bytes(&b)));
            let want = (n >= 4).then(|| u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize);
            let got = lib(|| ssz::read_offset(&b).ok()).map_err(|p| format!("read_offset({}) {p}", show_bytes(&b)))?;
            if got != want {
                return Err(format!("read_offset({}) = {got:?} instead of {want:?}", show_bytes(&b)));
            }
            Ok(())
        }),
    ];
    for (name, kinds, f) in containers() {
        jobs.push(Job::random(format!("container {name}"), env.cases(18_000, 26), move |src, ctx| {
            container_case(&kinds, f, src, ctx)
        }));
    }
    jobs
}

// ---------------------------------------------------------------------------------------------------------
// C16
// ---------------------------------------------------------------------------------------------------------

thread_local! {
    static ROOM: Cell<usize> = const { Cell::new(0) };
}

macro_rules! refusing {
    ($($(#[$doc:meta])* $name:ident, $values:ident => $body:expr;)*) => {$(
        $(#[$doc])*
        #[derive(Debug, PartialEq)]
        struct $name(Vec<Probe>);
        impl TryFromIter<Probe> for $name {
            type Error = String;
            fn try_from_iter<I: IntoIterator<Item = Probe>>($values: I) -> Result<Self, String> {
                let room = ROOM.with(|r| r.get());
                #[allow(clippy::redundant_closure_call)]
                ($body)(room)
            }
        }
    )*};
}

refusing! {
    /// Refuses the item that does not fit any more.
    Bounded, values => |room: usize| {
        let mut v = vec![];
        for x in values {
            if v.len() == room {
                return Err(format!("more than {room} items"));
            }
            v.push(x);
        }
        Ok(Bounded(v))
    };
    /// Takes everything, then refuses.
    Late, values => |room: usize| {
        let v: Vec<Probe> = values.into_iter().collect();
        if v.len() > room { Err(format!("more than {room} items")) } else { Ok(Late(v)) }
    };
    /// Wants at least `room` items.
    AtLeast, values => |room: usize| {
        let v: Vec<Probe> = values.into_iter().collect();
        if v.len() < room { Err(format!("fewer than {room} items")) } else { Ok(AtLeast(v)) }
    };
    /// Refuses anything, without looking.
    Never, values => |_room: usize| {
        let _ = values;
        Err::<Never, String>("never".into())
    };
    /// Refuses equal neighbours.
    Distinct, values => |_room: usize| {
        let mut v: Vec<Probe> = vec![];
        for x in values {
            if v.last() == Some(&x) {
                return Err("twice".into());
            }
            v.push(x);
        }
        Ok(Distinct(v))
    };
}

type Items = Result<Vec<Vec<u8>>, String>;

fn list_as(which: usize, b: &[u8], max: Option<usize>) -> Items {
    use ssz::decode_list_of_variable_length_items as d;
    fn v(x: Vec<Probe>) -> Vec<Vec<u8>> {
        x.into_iter().map(|p| p.0).collect()
    }
    let r = match which {
        0 => d::<Probe, Vec<Probe>>(b, max).map(v),
        1 => d::<Probe, SmallVec<[Probe; 2]>>(b, max).map(|s| v(s.into_vec())),
        2 => d::<Probe, BTreeSet<Probe>>(b, max).map(|s| v(s.into_iter().collect())),
        3 => d::<Probe, Bounded>(b, max).map(|s| v(s.0)),
        4 => d::<Probe, Late>(b, max).map(|s| v(s.0)),
        5 => d::<Probe, AtLeast>(b, max).map(|s| v(s.0)),
        6 => d::<Probe, Never>(b, max).map(|s| v(s.0)),
        7 => d::<Probe, Distinct>(b, max).map(|s| v(s.0)),
        _ => d::<(Probe, Probe), BTreeMap<Probe, Probe>>(b, max)
            .map(|m| m.into_iter().map(|(k, x)| [k.0, vec![0xfe], x.0].concat()).collect()),
    };
    r.map_err(|e| format!("{e:?}"))
}

/// The heap an error may need, whatever the input announces.
const ERROR_HEAP: i64 = 2048;

fn limits_case(big: bool) -> impl Fn(&mut Source, &mut Ctx) -> R {
    move |src, ctx| {
        let (mut b, mut what) = list_bytes(src, big);
        if src.one_in(6) && b.len() >= 4 {
            // Announces more than there is.
            let n = match src.below(3) {
                0 => (b.len() as u32 + 4) & !3,
                1 => *src.pick(&[u32::MAX - 3, 1 << 31, 1 << 30, 1 << 24, 1 << 20]),
                _ => (gen_u64(src) as u32) & !3,
            };
            b[..4].copy_from_slice(&n.to_le_bytes());
            what = "announces more than it holds";
        }
        let which = src.below(9);
        let announced = if b.len() >= 4 {
            Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize).filter(|o| *o > 0 && o % 4 == 0).map(|o| o / 4)
        } else {
            None
        };
        let near = announced.unwrap_or(if b.is_empty() { 0 } else { 3 });
        let max = match src.below(8) {
            0 => near,
            1 => near.saturating_sub(1),
            2 => near + 1,
            3 => 0,
            4 => src.below(near + 2),
            5 => usize::MAX,
            6 => near / 4,
            _ => near * 4,
        };
        let room = match src.below(6) {
            0 => near,
            1 => near.saturating_sub(1),
            2 => 0,
            3 => near + 1,
            4 => usize::MAX,
            _ => src.below(near + 2),
        };
        ROOM.with(|r| r.set(room));
        ctx.label(what);
        let at = || format!("collection {which}, limit {max}, room {room}, {}", show_bytes(&b));
        ctx.sample(|| format!("{} [{what}]", at()));
        ctx.nontrivial(&[&b, &max.to_le_bytes(), &room.to_le_bytes(), &[which as u8]]);
        // Unlimited.
        begin();
        let free = lib(|| list_as(which, &b, None)).map_err(|p| format!("{}: unlimited decoding {p}", at()))?;
        let free_seen = seen();
        // Limited.
        begin();
        let (r, st) = engine::alloc::tracked(|| lib(|| list_as(which, &b, Some(max))));
        let limited = r.map_err(|p| format!("{}: {p}", at()))?;
        let (limited_seen, n) = (seen(), calls());
        if announced.is_some_and(|a| a > max) {
            ctx.label("over the limit");
            if limited.is_ok() {
                return Err(format!("{}: accepted although {announced:?} items are announced", at()));
            }
            if n != 0 {
                return Err(format!("{}: {n} items were decoded before the limit was enforced", at()));
            }
            if st.peak > ERROR_HEAP || st.largest as i64 > ERROR_HEAP {
                return Err(format!("{}: {} bytes were allocated before the limit was enforced", at(), st.peak.max(st.largest as i64)));
            }
        } else {
            ctx.label("within the limit");
            if limited.is_ok() != free.is_ok() || limited.as_ref().ok() != free.as_ref().ok() {
                return Err(format!("{}: {limited:?} but without a limit {free:?}", at()));
            }
            if limited_seen != free_seen {
                return Err(format!("{}: the items decoded differ from those decoded without a limit", at()));
            }
        }
        // What the collection may do with the items.
        let item_ok = |p: &[u8]| -> bool {
            if which != 8 {
                p.first() != Some(&BAD)
            } else {
                split_parts(&[None, None], p).is_ok_and(|q| q.iter().all(|x| x.first() != Some(&BAD)))
            }
        };
        let parts = split_list(&b).ok().filter(|ps| ps.iter().all(|p| item_ok(p)));
        let Some(parts) = parts else {
            // Never refuses whatever it is; the others pass the error on unless they refuse first.
            if let Ok(v) = &free {
                return Err(format!("{}: {} items from an invalid list", at(), v.len()));
            }
            return Ok(());
        };
        let n = parts.len();
        let mut want: Vec<Vec<u8>> = parts.iter().map(|p| p.to_vec()).collect();
        let accepts = match which {
            3 | 4 => n <= room,
            5 => n >= room,
            6 => false,
            7 => want.windows(2).all(|w| w[0] != w[1]),
            _ => true,
        };
        if which == 2 {
            want.sort();
            want.dedup();
        }
        if which == 8 {
            let mut m = BTreeMap::new();
            for p in &parts {
                let kv = split_parts(&[None, None], p).unwrap();
                m.insert(kv[0].to_vec(), kv[1].to_vec());
            }
            want = m.into_iter().map(|(k, v)| [k, vec![0xfe], v].concat()).collect();
        }
        ctx.label(if accepts { "collection accepts" } else { "collection refuses" });
        match &free {
            Ok(_) if !accepts => Err(format!("{}: the collection refuses these {n} items but decoding succeeds", at())),
            Ok(v) if *v != want => Err(format!("{}: {} items come out, {} went in", at(), v.len(), want.len())),
            Err(e) if accepts => Err(format!("{}: a valid list of {n} items the collection accepts is rejected: {e}", at())),
            _ => Ok(()),
        }
    }
}

fn empty_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let which = src.below(9);
    let max = *src.pick(&[None, Some(0), Some(1), Some(usize::MAX)]);
    let room = *src.pick(&[0usize, 1, 5]);
    ROOM.with(|r| r.set(room));
    ctx.nontrivial(&[&[which as u8], format!("{max:?}{room}").as_bytes()]);
    let r = lib(|| list_as(which, &[], max)).map_err(|p| format!("empty input: {p}"))?;
    let refuses = which == 6 || which == 5 && room > 0;
    match r {
        Ok(v) if v.is_empty() && !refuses => Ok(()),
        Err(_) if refuses => Ok(()),
        r => Err(format!("empty input, collection {which}, limit {max:?}, room {room}: {r:?}")),
    }
}

/// Real item types and any limit.
fn typed_limit_case(e: &'static Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let list = Schema::List(Box::new(e.schema.clone()));
    let (b, what) = gen_wire(&list, src);
    let announced = split_list(&b).map(|p| p.len()).unwrap_or(2);
    let max = match src.below(4) {
        0 => announced,
        1 => announced.saturating_sub(1),
        2 => src.below(announced + 2),
        _ => gen_u64(src) as usize,
    };
    ctx.sample(|| format!("{} items, limit {max}, {} [{what}]", e.name, show_bytes(&b)));
    if b.len() >= 4 {
        ctx.nontrivial(&[e.name.as_bytes(), &b, &max.to_le_bytes()]);
    }
    let at = |p: String| format!("list of {} from {}: {p}", e.name, show_bytes(&b));
    let free = lib(|| e.ops.decode_list(&b, None)).map_err(at)?;
    let lim = lib(|| e.ops.decode_list(&b, Some(max))).map_err(at)?;
    let over = b.len() >= 4 && u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize / 4 > max;
    ctx.label(if over { "over the limit" } else { "within the limit" });
    match (&free, &lim, over) {
        (_, Ok(v), true) => Err(at(format!("{} items with limit {max}", v.len()))),
        (_, Err(_), true) | (Err(_), Err(_), _) => Ok(()),
        (Ok(a), Ok(c), false) if a == c => Ok(()),
        _ => Err(at(format!("limit {max} changes the result: {} and {}", free.is_ok(), lim.is_ok()))),
    }
}

/// Collections of fixed-size items, and the empty input of every collection type.
fn whole_types(e: &'static Entry, ctx: &mut Ctx) -> R {
    ctx.nontrivial(&[e.name.as_bytes()]);
    match e.ops.decode(&[]) {
        Dec::Ok(Val::Seq(v)) if v.is_empty() => Ok(()),
        Dec::Ok(Val::Bytes(v)) if v.is_empty() => Ok(()),
        Dec::Ok(v) => Err(format!("{} from empty input is {}", e.name, v.show())),
        Dec::Err(x) => Err(format!("{} from empty input: {x}", e.name)),
        Dec::Panic(p) => Err(format!("{} from empty input {p}", e.name)),
    }
}

/// The library's own `TryFromIter` collections keep every item, whatever the size hint says.
fn collect_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let n = gen_len(src, 300);
    let items: Vec<u16> = (0..n).map(|_| src.below(50) as u16).collect();
    struct Hint<I>(I, usize, Option<usize>);
    impl<I: Iterator> Iterator for Hint<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.1, self.2)
        }
    }
    let low = src.below(n + 1);
    let high = match src.below(3) {
        0 => None,
        1 => Some(n),
        _ => Some(n + src.below(20)),
    };
    ctx.nontrivial(&[format!("{items:?}").as_bytes(), format!("{low} {high:?}").as_bytes()]);
    ctx.sample(|| format!("{n} items with size hint ({low}, {high:?})"));
    let it = || Hint(items.clone().into_iter(), low, high);
    lib(|| {
        let v = Vec::<u16>::try_from_iter(it()).map_err(|e| format!("{e:?}"))?;
        let s = SmallVec::<[u16; 4]>::try_from_iter(it()).map_err(|e| format!("{e:?}"))?;
        let b = BTreeSet::<u16>::try_from_iter(it()).map_err(|e| format!("{e:?}"))?;
        let m = BTreeMap::<u16, usize>::try_from_iter(Hint(items.clone().into_iter().zip(0..), low, high)).map_err(|e| format!("{e:?}"))?;
        if v != items || s[..] != items[..] || b != items.iter().copied().collect() || m != items.iter().copied().zip(0..).collect() {
            return Err(format!("{n} items with size hint ({low}, {high:?}) are not all kept"));
        }
        Ok(())
    })
    .unwrap_or_else(|p| Err(format!("{n} items with size hint ({low}, {high:?}): {p}")))
}

fn c16(env: &Env) -> Vec<Job> {
    let mut jobs = vec![
        Job::random("limits", env.cases(1_600_000, 10), limits_case(false)),
        Job::random("limits, many items", env.cases(4_800, 4), limits_case(true)),
        Job::random("empty input", 2_000, empty_case),
        Job::random("collecting", env.cases(40_000, 10), collect_case),
    ];
    for e in table().iter().filter(|e| e.schema.fixed_len(Side::Dec).is_none()) {
        jobs.push(Job::random(format!("limit, list of {}", e.name), env.cases(1_600, 10), move |src, ctx| {
            typed_limit_case(e, src, ctx)
        }));
    }
    for e in table()
        .iter()
        .filter(|e| matches!(e.schema, Schema::List(_) | Schema::Map(..) | Schema::Set(_) | Schema::ByteList))
    {
        jobs.push(Job::indexed(format!("empty {}", e.name), 1, move |_, ctx| whole_types(e, ctx)));
    }
    jobs
}

// ---------------------------------------------------------------------------------------------------------
// C17
// ---------------------------------------------------------------------------------------------------------

fn legacy_value(l: &legacy::Codec, v: &Val, p: &[u8], ctx: &mut Ctx) -> R {
    let want = serialize(&l.schema, v);
    ctx.label(if v.union().1.is_some() { "Some" } else { "None" });
    ctx.nontrivial(&[l.name.as_bytes(), &want]);
    ctx.sample(|| format!("Option<{}> {}", l.name, v.show()));
    let at = |m: String| format!("Option<{}> {}: {m}", l.name, v.show());
    let got = lib(|| (l.encode)(v, p)).map_err(&at)?;
    if got.bytes != want {
        return Err(at(format!("encodes to {} instead of {}", show_bytes(&got.bytes), show_bytes(&want))));
    }
    if got.len != want.len() {
        return Err(at(format!("ssz_bytes_len is {} but it encodes to {} bytes", got.len, want.len())));
    }
    if got.appended[..p.len().min(got.appended.len())] != *p || got.appended[p.len()..] != want[..] {
        return Err(at(format!("appended to {} gives {}", show_bytes(p), show_bytes(&got.appended))));
    }
    if got.meta != [(false, 4), (false, 4)] {
        return Err(at(format!("metadata (encoder, decoder) {:?}: not a variable-size type", got.meta)));
    }
    match lib(|| (l.decode)(&want)).map_err(&at)? {
        Ok((w, same)) if w == *v && same == want => Ok(()),
        Ok((w, same)) => Err(at(format!("{} decodes to {} which encodes to {}", show_bytes(&want), w.show(), show_bytes(&same)))),
        Err(e) => Err(at(format!("{} is rejected: {e}", show_bytes(&want)))),
    }
}

fn legacy_bytes(l: &legacy::Codec, b: &[u8], how: &str, ctx: &mut Ctx) -> R {
    let want = deserialize(&l.schema, b);
    ctx.sample(|| format!("Option<{}> from {} [{how}]", l.name, show_bytes(b)));
    let got = lib(|| (l.decode)(b));
    let at = |m: String| format!("Option<{}> from {}: {m}", l.name, show_bytes(b));
    match (want, got) {
        (Ok(w), Ok(Ok((v, again)))) => {
            ctx.label("accepted");
            if v != w {
                return Err(at(format!("{} instead of {}", v.show(), w.show())));
            }
            if again != b && !l.schema.has_map_or_set() {
                return Err(at(format!("accepted as {} which encodes to {}", v.show(), show_bytes(&again))));
            }
            Ok(())
        }
        (Err(r), Ok(Ok((v, _)))) => Err(at(format!("accepted as {}: {r}", v.show()))),
        (Err(r), _) => {
            ctx.label(r);
            Ok(())
        }
        (Ok(_), _) if l.schema.has_map_or_set() => Ok(()),
        (Ok(w), Ok(Err(e))) => Err(at(format!("is the encoding of {} but is rejected: {e}", w.show()))),
        (Ok(_), Err(p)) => Err(at(p)),
    }
}

fn c17(env: &Env) -> Vec<Job> {
    static L: OnceLock<Vec<legacy::Codec>> = OnceLock::new();
    static S: OnceLock<Vec<Entry>> = OnceLock::new();
    let mut jobs = vec![];
    for l in L.get_or_init(legacy::codecs) {
        jobs.push(Job::random(format!("value {}", l.name), env.cases(12_000, 10), move |src, ctx| {
            let v = engine::gen::gen_val(&l.schema, src);
            let n = src.below(20);
            let p = src.blob(n);
            legacy_value(l, &v, &p, ctx)
        }));
        jobs.push(Job::random(format!("bytes {}", l.name), env.cases(24_000, 10), move |src, ctx| {
            let (b, how) = gen_wire(&l.schema, src);
            ctx.label(how);
            if b.len() >= 4 {
                ctx.nontrivial(&[l.name.as_bytes(), &b]);
            }
            legacy_bytes(l, &b, how, ctx)
        }));
        // Every selector with few bits or near a byte boundary, with a body that is right or wrong.
        jobs.push(Job::random(format!("selectors {}", l.name), env.cases(16_000, 10), move |src, ctx| {
            let sel = match src.below(6) {
                0 => src.below(3) as u32,
                1 => 1u32 << src.below(32),
                2 => (1u32 << src.below(32)) + 1,
                3 => (src.below(2) as u32) << (8 * src.below(4)),
                4 => u32::MAX - src.below(2) as u32,
                _ => gen_u64(src) as u32,
            };
            let mut b = sel.to_le_bytes().to_vec();
            match src.below(3) {
                0 => {}
                1 => {
                    let Schema::Legacy(t) = &l.schema else { unreachable!() };
                    b.extend(serialize(t, &engine::gen::gen_val(t, src)));
                }
                _ => {
                    let n = src.below(9);
                    b.extend(src.blob(n));
                }
            }
            ctx.nontrivial(&[l.name.as_bytes(), &b]);
            legacy_bytes(l, &b, "selector", ctx)
        }));
        jobs.push(Job::indexed(format!("short strings {}", l.name), short_count(2).div_ceil(256), move |src, ctx| {
            let block = src.draw(u64::MAX) * 256;
            for i in block..(block + 256).min(short_count(2)) {
                legacy_bytes(l, &short_string(i), "exhaustive", ctx)?;
            }
            ctx.evals(255);
            Ok(())
        }));
        // Four to six bytes: each position every value around the two selectors.
        jobs.push(Job::indexed(format!("around the selectors {}", l.name), 2 * 3 * 4 * 256, move |src, ctx| {
            let (sel, extra, pos, x) = (src.draw(1) as u8, src.draw(2) as usize, src.draw(3) as usize, src.draw(255) as u8);
            let mut b = vec![sel, 0, 0, 0];
            b[pos] = x;
            b.extend(vec![0; extra]);
            ctx.nontrivial(&[l.name.as_bytes(), &b]);
            legacy_bytes(l, &b, "exhaustive", ctx)
        }));
    }
    for e in S.get_or_init(legacy::fields) {
        jobs.push(Job::random(format!("field values {}", e.name), env.cases(12_000, 10), move |src, ctx| {
            let v = engine::gen::gen_val(&e.schema, src);
            roundtrip_val(e, &v, ctx)?;
            wire_format_val(e, &v, ctx)?;
            sizes_val(e, &v, ctx)
        }));
        jobs.push(Job::random(format!("field bytes {}", e.name), env.cases(24_000, 10), move |src, ctx| {
            exact(e, false, src, ctx)
        }));
        jobs.push(Job::random(format!("field canonical {}", e.name), env.cases(12_000, 10), move |src, ctx| {
            canonical(e, src, ctx)
        }));
        jobs.push(Job::indexed(format!("field metadata {}", e.name), 1, move |_, ctx| metadata(e, ctx)));
    }
    jobs.push(Job::random("selector functions", env.cases(160_000, 4), |src, ctx| {
        let x = gen_u64(src) as u32;
        let n = src.below(7);
        let b = src.blob(n);
        ctx.nontrivial(&[&x.to_le_bytes(), &b]);
        let enc = lib(|| ssz::legacy::encode_four_byte_union_selector(x as usize)).map_err(|p| format!("encoding {x} {p}"))?;
        if enc != x.to_le_bytes() {
            return Err(format!("encode_four_byte_union_selector({x}) = {enc:?}"));
        }
        if lib(|| ssz::legacy::read_four_byte_union_selector(&enc).ok()) != Ok(Some(x as usize)) {
            return Err(format!("read_four_byte_union_selector({enc:?}) is not {x}"));
        }
        if n < 4 && lib(|| ssz::legacy::read_four_byte_union_selector(&b).is_ok()) != Ok(false) {
            return Err(format!("read_four_byte_union_selector({}) succeeds", show_bytes(&b)));
        }
        Ok(())
    }));
    jobs
}

// ---------------------------------------------------------------------------------------------------------
// C19
// ---------------------------------------------------------------------------------------------------------

/// Schema of one entry of a map or set.
fn entry_schema(s: &Schema) -> Schema {
    match s {
        Schema::Map(k, v) => container(vec![(**k).clone(), (**v).clone()]),
        Schema::Set(t) => (**t).clone(),
        _ => unreachable!(),
    }
}

/// Entries in any order, with repeated keys.
fn entries(s: &Schema, src: &mut Source) -> Vec<Val> {
    let mut g = Gen { budget: 200, default_skipped: true };
    let n = match src.below(8) {
        0 => 0,
        1..=4 => 1 + src.below(5),
        5 | 6 => src.below(14),
        _ => src.below(60),
    };
    let pool = 1 + src.below(n.max(1));
    let key_schema = match s {
        Schema::Map(k, _) => k,
        Schema::Set(t) => t,
        _ => unreachable!(),
    };
    let keys: Vec<Val> = (0..pool).map(|_| g.val(key_schema, src)).collect();
    let order = src.below(4);
    let mut out: Vec<Val> = (0..n)
        .map(|i| {
            let k = if order == 3 { keys[i % pool].clone() } else { src.pick(&keys).clone() };
            match s {
                Schema::Map(_, t) => {
                    g.budget = g.budget.max(20);
                    let v = g.val(t, src);
                    Val::Seq(vec![k, v])
                }
                _ => k,
            }
        })
        .collect();
    match order {
        1 => out.sort(),
        2 => {
            out.sort();
            out.reverse();
        }
        _ => {}
    }
    out
}

fn collected(s: &Schema, list: Vec<Val>) -> Val {
    match s {
        Schema::Map(..) => Val::Seq(collect_map(list)),
        _ => {
            let mut v = list;
            v.sort();
            v.dedup();
            Val::Seq(v)
        }
    }
}

fn entry_list_case(e: &Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let list = entries(&e.schema, src);
    entry_list(e, list, ctx)
}

fn entry_list(e: &Entry, list: Vec<Val>, ctx: &mut Ctx) -> R {
    let ls = Schema::List(Box::new(entry_schema(&e.schema)));
    let b = serialize(&ls, &Val::Seq(list.clone()));
    let want = collected(&e.schema, list.clone());
    let Val::Seq(w) = &want else { unreachable!() };
    ctx.label(if w.len() < list.len() { "duplicate keys" } else { "no duplicate keys" });
    ctx.label(if *w == list { "already in order" } else { "not in order" });
    if list.len() > 1 {
        ctx.nontrivial(&[e.name.as_bytes(), &b]);
    }
    ctx.sample(|| format!("{} from the entries {}", e.name, Val::Seq(list.clone()).show()));
    let at = |m: String| format!("{} from the entries {} ({}): {m}", e.name, Val::Seq(list.clone()).show(), show_bytes(&b));
    // Decoding by collection.
    let (again, v) = match e.ops.decode(&b) {
        Dec::Ok(v) => {
            let Ok(Some((again, _))) = e.ops.reencode(&b) else { return Err(at("re-encoding fails".into())) };
            (again, v)
        }
        Dec::Err(x) => return Err(at(format!("a well-formed entry list is rejected: {x}"))),
        Dec::Panic(p) => return Err(at(p)),
    };
    if v != want {
        return Err(at(format!("gives {} instead of {}", v.show(), want.show())));
    }
    // Encoding as the sorted list of entries.
    let sorted = serialize(&ls, &want);
    if again != sorted {
        return Err(at(format!("re-encodes to {} instead of {}", show_bytes(&again), show_bytes(&sorted))));
    }
    // A fixed point.
    match e.ops.reencode(&again) {
        Ok(Some((third, v))) if third == again && v == want => {}
        r => return Err(at(format!("decoding and encoding {} again gives {:?}", show_bytes(&again), r.map(|x| x.map(|y| show_bytes(&y.0)))))),
    }
    // Built by insertion in this order, encoded, decoded.
    let x = lib(|| e.ops.value(&Val::Seq(list.clone()))).map_err(&at)?;
    let enc = lib(|| x.as_ssz_bytes()).map_err(&at)?;
    if enc != sorted {
        return Err(at(format!("the collection encodes to {} instead of {}", show_bytes(&enc), show_bytes(&sorted))));
    }
    let n = lib(|| x.ssz_bytes_len()).map_err(&at)?;
    if n != enc.len() {
        return Err(at(format!("ssz_bytes_len is {n}, the encoding has {} bytes", enc.len())));
    }
    match lib(|| x.eq_decoded(&enc)).map_err(&at)? {
        Ok(true) => Ok(()),
        r => Err(at(format!("decoding its encoding: {r:?}"))),
    }
}

fn malformed_case(e: &Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let ls = Schema::List(Box::new(entry_schema(&e.schema)));
    let (b, how) = gen_wire(&ls, src);
    ctx.label(how);
    if !b.is_empty() && how != "random" {
        ctx.nontrivial(&[e.name.as_bytes(), &b]);
    }
    exact_bytes(e, &b, how, false, ctx)
}

fn c19(env: &Env) -> Vec<Job> {
    static M: OnceLock<Vec<Entry>> = OnceLock::new();
    let m = M.get_or_init(curated::maps);
    let mut jobs = vec![];
    for e in m {
        if matches!(e.schema, Schema::Map(..) | Schema::Set(_)) {
            jobs.push(Job::random(format!("entries {}", e.name), env.cases(9_000, 12), move |src, ctx| {
                entry_list_case(e, src, ctx)
            }));
            jobs.push(Job::random(format!("faulty entries {}", e.name), env.cases(15_000, 12), move |src, ctx| {
                malformed_case(e, src, ctx)
            }));
            jobs.push(Job::random(format!("many entries {}", e.name), env.cases(18, 4), move |src, ctx| {
                many(e, src, ctx)
            }));
        } else {
            // Collections inside other types.
            jobs.push(Job::random(format!("nested {}", e.name), env.cases(9_000, 12), move |src, ctx| {
                exact(e, false, src, ctx)
            }));
            jobs.push(Job::random(format!("nested values {}", e.name), env.cases(3_600, 12), move |src, ctx| {
                let v = engine::gen::gen_val(&e.schema, src);
                wire_format_val(e, &v, ctx)?;
                roundtrip_val(e, &v, ctx)
            }));
        }
        jobs.push(Job::indexed(format!("short strings {}", e.name), short_count(2).div_ceil(256), move |src, ctx| {
            let block = src.draw(u64::MAX) * 256;
            for i in block..(block + 256).min(short_count(2)) {
                exact_bytes(e, &short_string(i), "exhaustive", false, ctx)?;
            }
            ctx.evals(255);
            Ok(())
        }));
    }
    jobs
}

/// Enough entries for trees of several levels.
fn many(e: &Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let n = 100 + src.below(2000);
    let key_schema = match &e.schema {
        Schema::Map(k, _) => k,
        Schema::Set(t) => t,
        _ => unreachable!(),
    };
    let mut g = Gen { budget: 0, default_skipped: true };
    let list = (0..n)
        .map(|_| {
            g.budget = 6;
            let k = g.val(key_schema, src);
            match &e.schema {
                Schema::Map(_, t) => Val::Seq(vec![k, g.val(t, src)]),
                _ => k,
            }
        })
        .collect();
    entry_list(e, list, ctx)
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "at least one offset word in an input of at least 4 bytes; distinct by item kinds and bytes",
            assumptions: &[],
            death_is_violation: true,
            jobs: c09,
        },
        Prop {
            id: "C16",
            rule: "every case with a limit; distinct by collection, limit, room and bytes",
            assumptions: &["the fallible collections are the harness's own implementations of TryFromIter"],
            death_is_violation: true,
            jobs: c16,
        },
        Prop {
            id: "C17",
            rule: "an input of at least 4 bytes, or a value; distinct by type and bytes",
            assumptions: &[],
            death_is_violation: true,
            jobs: c17,
        },
        Prop {
            id: "C19",
            rule: "at least two entries, or a non-empty faulty entry list; distinct by type and bytes",
            assumptions: &[],
            death_is_violation: true,
            jobs: c19,
        },
    ]
}
