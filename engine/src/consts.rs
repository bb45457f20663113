//! Interesting numbers: a fixed boundary list plus the integer literals of the code under test (as
//! Hypothesis harvests constants). They bias sizes, integers, offsets and bit lengths; they never decide
//! anything.
use std::path::Path;
use std::sync::OnceLock;

static HARVEST: OnceLock<Vec<u64>> = OnceLock::new();

pub const BOUNDARY: &[u64] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 55, 56, 57, 63, 64,
    65, 71, 72, 73, 96, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024,
    1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097,
];

fn scan(text: &str, out: &mut Vec<u64>) {
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let start = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let mut tok: String = text[start..i].chars().filter(|c| *c != '_').collect();
            for suf in ["usize", "u128", "u64", "u32", "u16", "u8", "isize", "i64", "i32"] {
                if let Some(t) = tok.strip_suffix(suf) {
                    tok = t.to_string();
                    break;
                }
            }
            let v = if let Some(h) = tok.strip_prefix("0x") {
                u64::from_str_radix(h, 16)
            } else if let Some(h) = tok.strip_prefix("0b") {
                u64::from_str_radix(h, 2)
            } else {
                tok.parse()
            };
            if let Ok(v) = v {
                out.push(v);
                // `1 << 16` and friends
                let rest = text[i..].trim_start();
                if let Some(r) = rest.strip_prefix("<<") {
                    let d: String = r.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(s) = d.parse::<u32>() {
                        if s < 64 {
                            out.push(v.wrapping_shl(s));
                        }
                    }
                }
            }
        } else {
            i += 1;
        }
    }
}

fn walk(dir: &Path, out: &mut Vec<u64>) {
    let mut entries: Vec<_> = match std::fs::read_dir(dir) {
        Ok(e) => e.flatten().map(|e| e.path()).collect(),
        Err(_) => return,
    };
    entries.sort();
    for p in entries {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(text) = std::fs::read_to_string(&p) {
                // The unit tests sit at the end of each file.
                let code: String = text
                    .split("#[cfg(test)]\nmod ")
                    .next()
                    .unwrap_or("")
                    .lines()
                    .map(|l| l.split("//").next().unwrap_or(""))
                    .collect::<Vec<_>>()
                    .join("\n");
                scan(&code, out);
            }
        }
    }
}

/// Reads the literals below `repo`; with `fixed`, uses that list instead (replay).
pub fn init(repo: &Path, fixed: Option<Vec<u64>>) {
    let v = fixed.unwrap_or_else(|| {
        let mut v = vec![];
        walk(&repo.join("ssz/src"), &mut v);
        walk(&repo.join("ssz_derive/src"), &mut v);
        v.sort_unstable();
        v.dedup();
        v.truncate(500);
        v
    });
    let _ = HARVEST.set(v);
}

pub fn harvested() -> &'static [u64] {
    HARVEST.get().map(|v| v.as_slice()).unwrap_or(&[])
}
