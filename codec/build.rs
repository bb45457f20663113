//! Writes the generated part of the type table: a function of VERIF_SEED and the literals in /repo.
use std::path::{Path, PathBuf};

fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-env-changed=VERIF_REPO");
    println!("cargo:rerun-if-env-changed=VERIF_NOGEN");
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    println!("cargo:rerun-if-env-changed=VERIF_CONSTANTS");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let fixed = std::env::var("VERIF_CONSTANTS")
        .ok()
        .map(|s| s.split_whitespace().filter_map(|x| x.parse().ok()).collect());
    engine::consts::init(Path::new(&repo), fixed);
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let nogen = std::env::var("VERIF_NOGEN").is_ok_and(|v| v == "1");
    // Fixed: the sweep and some definitions that are the same for every seed. Seeded: the rest.
    let text = if nogen {
        "pub fn table() -> Vec<codec::Entry> { vec![] }".to_string()
    } else {
        engine::typegen::module(seed, "G", Some(false), 60, 120)
    };
    std::fs::write(out.join("gen.rs"), text).unwrap();
}
