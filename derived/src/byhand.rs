//! Hand-written definitions that do not fit the table of types.
use crate::manual;
use codec::check::*;
use engine::schema::*;
use engine::{lib, Ctx, Env, Job, Source};
use ssz::{Decode, Encode};
use std::sync::Arc;

fn same(what: &str, got: Result<(Vec<u8>, usize), String>, want: &[u8]) -> R {
    match got {
        Err(p) => Err(format!("{what} {p}")),
        Ok((b, n)) if b == want && n == want.len() => Ok(()),
        Ok((b, n)) => Err(format!("{what} encodes to {} (predicted {n}) instead of {}", show_bytes(&b), show_bytes(want))),
    }
}

fn enc<T: Encode>(x: &T) -> Result<(Vec<u8>, usize), String> {
    lib(|| {
        let mut out = vec![1, 2, 3];
        x.ssz_append(&mut out);
        let b = x.as_ssz_bytes();
        if out[..3] != [1, 2, 3] || out[3..] != b[..] {
            return (out, usize::MAX);
        }
        (b, x.ssz_bytes_len())
    })
}

fn bytes_of(src: &mut Source, n: usize) -> Vec<u8> {
    let n = src.below(n);
    src.blob(n)
}

fn borrowed_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let a = bytes_of(src, 20);
    let b = src.draw(u16::MAX as u64) as u16;
    let c: Vec<u16> = bytes_of(src, 12).into_iter().map(|x| x as u16 * 257).collect();
    let d: Vec<u32> = c.iter().map(|x| *x as u32 * 65537).collect();
    let list = |v: &[u16]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    ctx.nontrivial(&[b"borrowed", &a, &list(&c), &b.to_le_bytes()]);
    let cs = container(vec![Schema::ByteList, Schema::Uint(2), Schema::ByteList, Schema::ByteList]);
    let want = serialize(&cs, &Val::Seq(vec![Val::Bytes(a.clone()), Val::int(b as u128), Val::Bytes(list(&c)), Val::Bytes(list(&c))]));
    same("a struct of references", enc(&manual::Borrowed { a: &a, b, c: &c, d: Arc::new(c.clone()) }), &want)?;
    let cs = container(vec![Schema::ByteList, Schema::Uint(2), Schema::Uint(2), Schema::Uint(2)]);
    let want = serialize(&cs, &Val::Seq(vec![Val::Bytes(a.clone()), Val::int(b as u128), Val::int(b as u128), Val::int(b as u128)]));
    same("a struct of references to integers", enc(&manual::Borrowed { a: &a, b, c: &b, d: Arc::new(b) }), &want)?;
    same("a transparent struct of a reference", enc(&manual::BorrowedWrap(&c)), &list(&c))?;
    same("a union of references", enc(&manual::BorrowedUnion::A(&7)), &[0, 7])?;
    let mut want = vec![1];
    want.extend(&a);
    same("a union of references", enc(&manual::BorrowedUnion::B(&a)), &want)?;
    same("a transparent enum of references", enc(&manual::BorrowedAny::B(&a)), &a)?;
    let want: Vec<u8> = d.iter().flat_map(|x| x.to_le_bytes()).collect();
    same("a transparent enum of references", enc(&manual::BorrowedAny::A(&d)), &want)
}

/// Transparent enum with fixed-size variants, standalone as in the documentation.
fn fixed_any_case(src: &mut Source, ctx: &mut Ctx) -> R {
    use manual::FixedAny::*;
    let n = src.below(8);
    let b = src.blob(n);
    let le = |b: &[u8]| u16::from_le_bytes([b[0], b[1]]);
    let want = match n {
        1 => Some(A(b[0])),
        2 => Some(B(le(&b))),
        3 => Some(C((b[0], le(&b[1..])))),
        5 => Some(D([b[0], b[1], b[2], b[3], b[4]])),
        _ if n % 2 == 0 => Some(E(b.chunks(2).map(le).collect())),
        _ => None,
    };
    ctx.nontrivial(&[b"any", &b]);
    let got = lib(|| manual::FixedAny::from_ssz_bytes(&b).ok()).map_err(|p| format!("FixedAny from {} {p}", show_bytes(&b)))?;
    if got != want {
        return Err(format!("FixedAny from {} is {got:?} instead of {want:?}", show_bytes(&b)));
    }
    if let Some(v) = want {
        same(&format!("{v:?}"), enc(&v), &b)?;
    }
    // The inner value, whatever decoding would give.
    let list: Vec<u16> = b.iter().map(|x| *x as u16).collect();
    let bytes: Vec<u8> = list.iter().flat_map(|x| x.to_le_bytes()).collect();
    same("FixedAny::E", enc(&E(list)), &bytes)
}

fn gen_tree(src: &mut Source, depth: usize) -> manual::Tree {
    let kids = if depth == 0 { 0 } else { src.below(4) };
    let right = depth > 0 && src.boolean();
    manual::Tree {
        value: src.draw(u16::MAX as u64) as u16,
        left: (0..kids).map(|_| gen_tree(src, depth - 1)).collect(),
        note: bytes_of(src, 6),
        right: right.then(|| Arc::new(gen_tree(src, depth - 1))),
    }
}

fn tree_bytes(t: &manual::Tree) -> Vec<u8> {
    let mut left = vec![];
    let kids: Vec<Vec<u8>> = t.left.iter().map(tree_bytes).collect();
    let mut at = 4 * kids.len();
    for k in &kids {
        left.extend((at as u32).to_le_bytes());
        at += k.len();
    }
    left.extend(kids.concat());
    let right = match &t.right {
        None => vec![0],
        Some(r) => [vec![1], tree_bytes(r)].concat(),
    };
    let mut out = t.value.to_le_bytes().to_vec();
    let mut at = 14;
    for part in [&left, &t.note, &right] {
        out.extend((at as u32).to_le_bytes());
        at += part.len();
    }
    [out, left, t.note.clone(), right].concat()
}

fn tree_case(src: &mut Source, ctx: &mut Ctx) -> R {
    let depth = 1 + src.below(4);
    let t = gen_tree(src, depth);
    let b = tree_bytes(&t);
    ctx.nontrivial(&[b"tree", &b]);
    same("a recursive struct", enc(&t), &b)?;
    match lib(|| manual::Tree::from_ssz_bytes(&b)) {
        Ok(Ok(u)) if u == t => {}
        r => return Err(format!("a recursive struct from {}: {r:?} instead of {t:?}", show_bytes(&b))),
    }
    let mut c = b.clone();
    if src.boolean() {
        let i = src.below(c.len());
        c[i] ^= 1 << src.below(8);
    } else {
        let n = src.below(c.len());
        c.truncate(n);
    }
    match lib(|| manual::Tree::from_ssz_bytes(&c)) {
        Ok(Ok(u)) if tree_bytes(&u) != c => Err(format!("a recursive struct from {}: accepted as {u:?}", show_bytes(&c))),
        Err(p) => Err(format!("a recursive struct from {} {p}", show_bytes(&c))),
        _ => Ok(()),
    }
}

/// Types that implement `Decode` alone.
fn decoder_case(src: &mut Source, ctx: &mut Ctx) -> R {
    use manual::*;
    let mut u16s = |n: usize| -> Vec<u16> { (0..n).map(|_| src.draw(u16::MAX as u64) as u16).collect() };
    let (x, l) = (u16s(4), u16s(3));
    let blob = bytes_of(src, 9);
    let l = &l[..src.below(4)];
    let fixed = |a: u8, b: u16, d: u16| [vec![a], b.to_le_bytes().to_vec(), d.to_le_bytes().to_vec()].concat();
    let a = blob.len() as u8;
    let inner = DecodedFixed { a, b: OnlyDecoded(x[1]), c: Seven(7), d: OnlyDecoded(x[2]) };
    let want = DecodedMixed { a: blob.clone(), b: OnlyDecoded(x[0]), c: l.iter().map(|i| OnlyDecoded(*i)).collect(), d: inner };
    let mut b = (4u32 + 2 + 4 + 5).to_le_bytes().to_vec();
    b.extend(x[0].to_le_bytes());
    b.extend((15 + blob.len() as u32).to_le_bytes());
    b.extend(fixed(a, x[1], x[2]));
    b.extend(&blob);
    b.extend(l.iter().flat_map(|i| i.to_le_bytes()));
    ctx.nontrivial(&[b"decoders", &b]);
    fn is<T: Decode + PartialEq + std::fmt::Debug>(b: &[u8], want: Option<T>) -> R {
        match lib(|| T::from_ssz_bytes(b).ok()) {
            Ok(got) if got == want => Ok(()),
            got => Err(format!("{} from {}: {got:?} instead of {want:?}", std::any::type_name::<T>(), show_bytes(b))),
        }
    }
    is(&b[10..15], Some(want.d.clone()))?;
    is(&b, Some(want.clone()))?;
    is(&b, Some(DecodedWrap(want.clone(), Seven(7))))?;
    is(&[vec![0], b.clone()].concat(), Some(DecodedUnion::A(want.clone())))?;
    is(&[vec![1], b[4..6].to_vec()].concat(), Some(DecodedUnion::B(want.b.clone())))?;
    is(&[vec![2], b[4..6].to_vec()].concat(), None::<DecodedUnion<OnlyDecoded>>)?;
    let tail = &b[15 + blob.len()..];
    is(tail, Some(DecodedAny::A(want.c.clone())))?;
    let any: DecodedAny<OnlyDecoded> =
        if blob.len() % 2 == 0 { DecodedAny::A(blob.chunks(2).map(|p| OnlyDecoded(u16::from_le_bytes([p[0], p[1]]))).collect()) } else { DecodedAny::B(blob.clone()) };
    is(&blob, Some(any))?;
    is(&[a], [DecodedTag::A, DecodedTag::B, DecodedTag::C].get(a as usize).cloned())?;
    for n in 0..b.len().min(15) {
        is(&b[..n], None::<DecodedMixed<OnlyDecoded>>)?;
    }
    Ok(())
}

pub fn jobs(env: &Env) -> Vec<Job> {
    vec![
        Job::random("encoders of references", env.cases(20_000, 10), borrowed_case),
        Job::random("transparent enum of fixed-size variants", env.cases(20_000, 10), fixed_any_case),
        Job::random("recursive struct", env.cases(10_000, 10), tree_case),
        Job::random("decoders without encoders", env.cases(10_000, 10), decoder_case),
    ]
}
