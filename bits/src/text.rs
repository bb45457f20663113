//! C18: the serde form.
use crate::bounds::judge;
use crate::field::*;
use crate::model::*;
use engine::{Ctx, Source};

fn text(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        for d in [x >> 4, x & 15] {
            s.push(b"0123456789abcdef"[d as usize] as char);
        }
    }
    s
}

/// The bytes a string stands for.
fn parse(s: &str) -> Option<Vec<u8>> {
    let digits = s.strip_prefix("0x")?.as_bytes();
    if digits.len() % 2 != 0 {
        return None;
    }
    let v = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    digits.chunks(2).map(|p| Some(v(p[0])? << 4 | v(p[1])?)).collect()
}

fn quote(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn escaped(s: &str) -> String {
    let mut out = String::from("\"");
    for u in s.encode_utf16() {
        out.push_str(&format!("\\u{u:04x}"));
    }
    out.push('"');
    out
}

/// One string through every way in. `full` adds those that differ in the format only.
pub fn string(ty: &Ty, s: &str, full: bool) -> Result<bool, String> {
    let want = parse(s).and_then(|b| decode(ty, &b));
    let what = |how: &str| format!("{}: deserializing {s:?} ({how})", ty.name);
    let j = quote(s);
    let r = call(|| what("from_str"), || ty.ops.json_str(&j))?;
    judge_text(ty, &what("from_str"), r, &want, s)?;
    if full {
        let r = call(|| what("from_reader"), || ty.ops.json_reader(&j))?;
        judge_text(ty, &what("from_reader"), r, &want, s)?;
        let r = call(|| what("from_value"), || ty.ops.json_value(s))?;
        judge_text(ty, &what("from_value"), r, &want, s)?;
        let e = escaped(s);
        let r = call(|| what("escaped"), || ty.ops.json_str(&e))?;
        judge_text(ty, &what("escaped"), r, &want, s)?;
        for how in [0, 1, 2, 4, 5, 6] {
            let r = call(|| what("plain"), || ty.ops.plain(s, how))?;
            judge_text(ty, &what(&format!("plain {how}")), r, &want, s)?;
        }
    }
    Ok(want.is_some())
}

fn judge_text(ty: &Ty, what: &str, r: Made, want: &Option<Bits>, s: &str) -> R {
    if let (Ok(f), Some(m)) = (&r, want) {
        let (len, slice, bits) = call(|| what.to_string(), || (f.len(), f.slice(), f.bits()))?;
        if len == m.len() && slice == view(m) && bits == *m {
            // And the same value as through SSZ.
            let b = parse(s).unwrap();
            let d = call(|| what.to_string(), || ty.ops.decode(&b).map(|d| d.equal(f.as_ref())))?;
            if d != Ok((true, true)) {
                return Err(format!("{what}: not equal to the SSZ decoding of {}: {d:?}", hex(&b)));
            }
            return Ok(());
        }
    }
    judge(ty, what, r, want.as_deref())
}

/// A value out and in again.
pub fn value(ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    let l = gen_len(ty, src, 3000);
    let m = gen_bits(src, l);
    let f = plainly(ty, &m)?;
    let want = text(&encode(ty.kind, &m));
    ctx.sample(|| format!("{}: {}", ty.name, show(&m)));
    if m.iter().any(|b| *b) {
        ctx.nontrivial(&[ty.name.as_bytes(), want.as_bytes()]);
    }
    ctx.evals(15);
    let outs = call(
        || format!("{}: serializing {}", ty.name, show(&m)),
        || {
            [
                ("to_string", f.json()),
                ("to_vec_pretty", f.json_bytes().map(|b| String::from_utf8_lossy(&b).into_owned())),
                ("to_value", f.json_value().map(|v| v.to_string())),
                ("plain", f.plain(true).map(|s| quote(&s))),
                ("plain, not human readable", f.plain(false).map(|s| quote(&s))),
            ]
        },
    )?;
    for (how, o) in outs {
        if o.as_deref() != Ok(&quote(&want)) {
            return Err(format!("{}: {} serializes ({how}) to {o:?}, should be {want:?}", ty.name, show(&m)));
        }
    }
    if !string(ty, &want, true)? {
        return Err(format!("harness: {want:?} judged invalid"));
    }
    Ok(())
}

const ODD: &[&str] = &[
    "g", "G", " ", "\n", "\t", "x", "X", "0x", "-", "+", "_", "\0", "é", "\u{ff10}", "\u{ff41}", "\u{0660}", "\u{1d7ce}", "\u{200b}", "\u{feff}", "\"", "\\", "/", ":",
    "@", "`", "G", ".", ",", "h", "'", "\u{7f}", "%", "&", "#",
];

/// A string near the valid ones.
pub fn near(ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    let bytes = match src.draw(3) {
        0 | 1 => {
            let l = gen_len(ty, src, 600);
            encode(ty.kind, &gen_bits(src, l))
        }
        2 => {
            let l = gen_len(ty, src, 600);
            let mut b = encode(ty.kind, &gen_bits(src, l));
            match src.draw(4) {
                0 => b.push(src.draw(255) as u8),
                1 => {
                    b.pop();
                }
                2 => b.push(0),
                3 => {
                    let k = b.len() - 1;
                    b[k] ^= 1 << src.draw(7);
                }
                _ => b.insert(0, src.draw(255) as u8),
            }
            b
        }
        _ => {
            let n = src.below(6);
            src.blob(n)
        }
    };
    let mut s: Vec<char> = text(&bytes).chars().collect();
    let faults = src.draw(2);
    for _ in 0..faults {
        match src.draw(13) {
            0 => {
                // Case of the digits.
                let all = src.boolean();
                for c in s.iter_mut().skip(2) {
                    if all || src.boolean() {
                        *c = c.to_ascii_uppercase();
                    }
                }
            }
            1 => {
                s.drain(..2.min(s.len()));
            }
            2 => {
                if s.len() > 1 && s[1] == 'x' {
                    s[1] = 'X';
                }
            }
            3 => {
                let i = src.below(s.len().max(1));
                if i < s.len() {
                    s.remove(i);
                }
            }
            4 | 5 => {
                let i = src.below(s.len() + 1);
                for (k, c) in src.pick(ODD).chars().enumerate() {
                    s.insert(i + k, c);
                }
            }
            6 | 7 => {
                // In place, so that the length stays even; a whole pair half of the time.
                let i = src.below(s.len().max(1));
                for c in src.pick(ODD).chars() {
                    if i < s.len() {
                        s[i] = c;
                    }
                }
            }
            8 => {
                s.splice(0..0, "0x".chars());
            }
            9 => {
                s.pop();
            }
            10 => s.push(*src.pick(&['0', 'f', '1', '8', ' ', '\n'])),
            11 => {
                let c = *src.pick(&[' ', '\n', '\t', '"', '\'', '#', '0', '\u{feff}', '\r']);
                s.insert(0, c);
            }
            12 => {
                let i = 2 + src.below(s.len());
                let d = [*src.pick(&['+', '-', ' ', '_', '0', 'g', 'x', '\u{e9}']), *src.pick(&['1', '0', 'f', ' '])];
                let i = i.min(s.len());
                s.splice(i..i, d);
            }
            _ => s.truncate(src.below(4)),
        }
    }
    let s: String = s.into_iter().collect();
    let ok = string(ty, &s, true)?;
    ctx.label(if ok { "valid string" } else { "invalid string" });
    if s.len() > 2 {
        ctx.nontrivial(&[ty.name.as_bytes(), s.as_bytes()]);
    }
    ctx.evals(9);
    ctx.sample(|| format!("{}: {s:?} {}", ty.name, if ok { "valid" } else { "invalid" }));
    Ok(())
}

/// 256 strings of one or two bytes of hex.
pub fn short(ty: &Ty, total: u64, src: &mut Source, ctx: &mut Ctx) -> R {
    let k = src.draw(total - 1);
    let mut ok = 0;
    for last in 0..=255u8 {
        let b = if k == 0 { vec![last] } else { vec![(k - 1) as u8, last] };
        if string(ty, &text(&b), false)? {
            ok += 1;
        }
    }
    ctx.evals(255);
    if ok > 0 {
        ctx.label("blocks of 256 hex strings with valid ones");
        ctx.nontrivial(&[ty.name.as_bytes(), &k.to_le_bytes()]);
    }
    ctx.sample(|| format!("{}: block {k} of 256 hex strings, {ok} valid", ty.name));
    Ok(())
}

const LETTERS: &[u8] = b"0x1fFXg +-\n";

/// All strings over a few letters, short ones; and with "0x" in front.
pub const GRAMMAR: u64 = 2 * (1 + 11 + 121 + 1331);

pub fn grammar(ty: &Ty, src: &mut Source, ctx: &mut Ctx) -> R {
    let k = src.draw(GRAMMAR - 1);
    let mut s = if k % 2 == 1 { "0x".to_string() } else { String::new() };
    let mut r = k / 2;
    let mut len = 0;
    let mut size = 1;
    while r >= size {
        r -= size;
        size *= LETTERS.len() as u64;
        len += 1;
    }
    for _ in 0..len {
        s.push(LETTERS[(r % LETTERS.len() as u64) as usize] as char);
        r /= LETTERS.len() as u64;
    }
    let ok = string(ty, &s, false)?;
    if ok {
        ctx.label("valid string");
    }
    ctx.nontrivial(&[ty.name.as_bytes(), s.as_bytes()]);
    ctx.sample(|| format!("{}: {s:?} {}", ty.name, if ok { "valid" } else { "invalid" }));
    Ok(())
}
