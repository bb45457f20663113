//! Writes the definitions: unions of every size, and bodies that depend on VERIF_SEED.
use std::path::{Path, PathBuf};

fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-env-changed=VERIF_REPO");
    println!("cargo:rerun-if-env-changed=VERIF_NOGEN");
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    println!("cargo:rerun-if-env-changed=VERIF_CONSTANTS");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let fixed = std::env::var("VERIF_CONSTANTS")
        .ok()
        .map(|s| s.split_whitespace().filter_map(|x| x.parse().ok()).collect());
    engine::consts::init(Path::new(&repo), fixed);
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let full = engine::typegen::unions(seed, 40);
    let stub = "pub fn table() -> Vec<codec::Entry> { vec![] }".to_string();
    let nogen = std::env::var("VERIF_NOGEN").is_ok_and(|v| v == "1");
    std::fs::write(out.join("full.rs"), &full).unwrap();
    std::fs::write(out.join("gen.rs"), if nogen { &stub } else { &full }).unwrap();
    println!("cargo:rustc-env=UNIONS_NOGEN={}", nogen as u8);
}
