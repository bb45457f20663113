//! Gives definitions to rustc one by one.
use engine::Job;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

struct Externs {
    dir: PathBuf,
    deps: PathBuf,
    libs: Vec<(String, String)>,
}

/// Where cargo put the libraries this binary is built from.
/// `level` is the value of VERIF_NOGEN it was built with.
pub fn init(krate: &'static str, level: &'static str) {
    let _ = CRATE.set((krate, level));
}

static CRATE: OnceLock<(&'static str, &'static str)> = OnceLock::new();

fn externs() -> &'static Externs {
    static E: OnceLock<Externs> = OnceLock::new();
    E.get_or_init(|| {
        let (krate, level) = *CRATE.get().expect("harness: initialised");
        let exe = std::env::current_exe().expect("own path");
        let out = exe.parent().unwrap();
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let dir = PathBuf::from(&root).join(krate);
        let dir = if dir.exists() { dir } else { PathBuf::from("/verif").join(krate) };
        let mut c = Command::new("cargo");
        c.args(["build", "--offline", "--quiet", "--bin", krate, "--message-format=json"])
            .current_dir(&dir)
            .env("CARGO_TARGET_DIR", out.parent().unwrap())
            .stderr(Stdio::null());
        if level != "0" {
            c.env("VERIF_NOGEN", level);
        }
        if out.file_name().is_some_and(|n| n == "release") {
            c.arg("--release");
        }
        let o = c.output().expect("cargo runs");
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        let mut libs = vec![];
        for line in text.lines().filter(|l| l.contains("\"compiler-artifact\"")) {
            for name in ["ssz", "ssz_derive", "codec", "engine", "smallvec", "typenum", "alloy_primitives"] {
                if !line.contains(&format!("\"name\":\"{name}\"")) || line.contains("\"kind\":[\"custom-build\"]") {
                    continue;
                }
                let Some(f) = line.split("\"filenames\":[").nth(1) else { continue };
                let f = f.split(']').next().unwrap();
                for p in f.split(',').map(|p| p.trim_matches('"')) {
                    if p.ends_with(".rlib") || p.ends_with(".so") {
                        // Build dependencies come first, the ones of the target last.
                        libs.retain(|(n, _)| n != name);
                        libs.push((name.to_string(), p.to_string()));
                    }
                }
            }
        }
        Externs { dir, deps: out.join("deps"), libs }
    })
}

/// Whether rustc accepts the text, and what it says otherwise (JSON lines).
pub fn compile(text: &str) -> (bool, String) {
    static N: AtomicUsize = AtomicUsize::new(0);
    let e = externs();
    let tmp = std::env::temp_dir().join(format!("verif-rustc-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&tmp).expect("scratch directory");
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "snippet", "--emit=metadata", "--error-format=json", "-Awarnings"])
        .arg("--out-dir")
        .arg(&tmp)
        .arg("-L")
        .arg(format!("dependency={}", e.deps.display()))
        .current_dir(&e.dir);
    for (name, path) in &e.libs {
        c.arg("--extern").arg(format!("{name}={path}"));
    }
    c.arg("-").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped());
    let mut child = c.spawn().expect("rustc runs");
    let mut stdin = child.stdin.take().unwrap();
    let t = text.to_string();
    let feed = std::thread::spawn(move || {
        let _ = stdin.write_all(t.as_bytes());
    });
    let o = child.wait_with_output().expect("rustc ends");
    let _ = feed.join();
    let _ = std::fs::remove_dir_all(&tmp);
    assert!(o.status.code().is_some(), "harness: rustc was killed");
    (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned())
}

/// A snippet without derives compiles, so the toolchain is in order.
pub fn sane() {
    static S: OnceLock<()> = OnceLock::new();
    S.get_or_init(|| {
        let (ok, err) = compile("pub fn f(b: &[u8]) -> usize { let _ = <u8 as ssz::Encode>::ssz_fixed_len(); b.len() }");
        assert!(ok, "harness: rustc does not accept a plain snippet: {err}");
    });
}

pub fn messages(json: &str) -> String {
    let mut out = vec![];
    for l in json.lines() {
        if let Some(m) = l.split("\"message\":\"").nth(1) {
            let m = m.split("\",\"").next().unwrap_or(m);
            out.push(m.replace("\\\"", "\""));
        }
    }
    out.dedup();
    out.truncate(3);
    out.join("; ")
}

/// When the generated definitions do not compile: which of them rustc refuses.
pub fn generated(full: &'static str, head: &'static str) -> Job {
    let blocks: Vec<&'static str> = full.split(engine::typegen::MARK).collect();
    static ERRORS: OnceLock<Vec<(usize, String)>> = OnceLock::new();
    let find = move || {
        ERRORS.get_or_init(|| {
            sane();
            let (ok, err) = compile(&format!("#![allow(unused_imports)]\n{head}{full}"));
            if ok && CRATE.get().unwrap().1 == "2" {
                return vec![];
            }
            assert!(!ok, "harness: the definitions compile alone but not in the harness");
            let mut out = vec![];
            let offset = 1 + head.lines().count();
            for l in err.lines().filter(|l| l.contains("\"level\":\"error\"")) {
                let Some(line) = l.split("\"line_start\":").nth(1).and_then(|x| x.split([',', '}']).next()) else { continue };
                let Ok(line) = line.parse::<usize>() else { continue };
                // Lines before this block, marks included.
                let mut at = offset;
                for (i, b) in full.split(engine::typegen::MARK).enumerate() {
                    let n = b.lines().count() + 1;
                    if line <= at + n {
                        out.push((i, messages(l)));
                        break;
                    }
                    at += n;
                }
            }
            assert!(!out.is_empty(), "harness: the definitions do not compile and no definition is named: {}", messages(&err));
            out
        })
    };
    Job::indexed("generated definitions", blocks.len() as u64, move |src, ctx| {
        let i = src.draw(u64::MAX) as usize;
        let Some(text) = blocks.get(i) else { return Ok(()) };
        ctx.nontrivial(&[text.as_bytes()]);
        match find().iter().find(|(k, _)| *k == i) {
            Some((_, m)) => Err(format!("a definition with a meaning is refused ({m}):\n{text}")),
            None => Ok(()),
        }
    })
}

