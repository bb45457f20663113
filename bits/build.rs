//! Writes the table of capacities: fixed ones, byte boundaries, the literals of /repo and a few drawn ones.
use engine::source::Rng;
use engine::typegen::typenum;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-env-changed=VERIF_REPO");
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    println!("cargo:rerun-if-env-changed=VERIF_CONSTANTS");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let fixed = std::env::var("VERIF_CONSTANTS")
        .ok()
        .map(|s| s.split_whitespace().filter_map(|x| x.parse().ok()).collect());
    engine::consts::init(Path::new(&repo), fixed);

    let mut caps: BTreeSet<u64> = (0..=40).collect();
    for b in (48..=128).step_by(8) {
        caps.extend([b - 1, b, b + 1]);
    }
    for b in [256, 512, 1016, 1024, 1032, 2048] {
        caps.extend([b - 1, b, b + 1]);
    }
    caps.extend([100, 200, 1000, 1020, 3000, 4096, 8192, 65536]);
    let fixed_caps = caps.len();
    for c in engine::consts::harvested() {
        if caps.len() < fixed_caps + 40 && *c <= 65536 {
            caps.extend([c.saturating_sub(1), *c, c + 1]);
        }
    }
    let mut rng = Rng::new(seed ^ 0xb175);
    for _ in 0..8 {
        caps.insert(41 + rng.next() % 1100);
    }
    let mut grid: BTreeSet<u64> = (0..=17).collect();
    grid.extend([23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 1016, 1023, 1024, 1025, 1032, 2048, 4096]);
    let mine: Vec<u64> = caps.iter().copied().filter(|c| *c <= 4097).collect();
    for _ in 0..6 {
        grid.insert(mine[rng.next() as usize % mine.len()]);
    }
    let huge = [131072, 1u64 << 20, 1 << 30, 1 << 40, (1 << 63) + 5, u64::MAX];

    let mut s = String::new();
    for c in caps.iter().chain(&huge).collect::<BTreeSet<_>>() {
        writeln!(s, "pub type N{c} = {};", typenum(*c)).unwrap();
    }
    s.push_str("pub fn types() -> Vec<Ty> {\n    let mut v = vec![];\n");
    for c in &caps {
        writeln!(s, "    v.push(ty::<Variable<N{c}>>(Kind::List, {c}));").unwrap();
        if *c <= 70000 {
            writeln!(s, "    v.push(ty::<Fixed<N{c}>>(Kind::Vector, {c}));").unwrap();
        }
    }
    for c in huge {
        writeln!(s, "    v.push(ty::<Variable<N{c}>>(Kind::List, {c}));").unwrap();
    }
    s.push_str("    v.push(ty::<Dynamic>(Kind::Dynamic, 0));\n    v\n}\n");
    // Vectors of which no value fits into memory.
    let giants = [1u64 << 40, (1 << 63) - 1, 1 << 63, (1 << 63) + 5, u64::MAX - 8, u64::MAX - 7, u64::MAX - 6, u64::MAX - 1, u64::MAX];
    s.push_str("pub fn giants() -> Vec<Ty> {\n    vec![\n");
    for c in giants {
        writeln!(s, "        ty::<Fixed<{}>>(Kind::Vector, {c}),", typenum(c)).unwrap();
    }
    s.push_str("    ]\n}\n");
    s.push_str("pub fn resizes() -> Vec<Resize> {\n    vec![\n");
    for a in &grid {
        for b in &grid {
            writeln!(s, "        Resize {{ from: {a}, to: {b}, run: resize::<N{a}, N{b}> }},").unwrap();
        }
        for b in [131072] {
            writeln!(s, "        Resize {{ from: {a}, to: {b}, run: resize::<N{a}, N{b}> }},").unwrap();
        }
    }
    for (a, b) in [(1u64 << 30, 8u64), (1 << 30, 1 << 20), (65536, 1 << 20), (1 << 40, 1 << 30), (u64::MAX, 0), (u64::MAX, 1 << 40)] {
        writeln!(s, "        Resize {{ from: {a}, to: {b}, run: resize::<N{a}, N{b}> }},").unwrap();
    }
    s.push_str("    ]\n}\n");
    std::fs::write(PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("caps.rs"), s).unwrap();
}
