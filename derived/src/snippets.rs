//! Definitions given to rustc one by one: those without a meaning must not compile, their twins must.
use engine::source::hash_bytes;
use codec::rustc::{compile, generated, messages, sane};
use engine::{Ctx, Env, Job, Source};

struct Snippet {
    name: String,
    text: String,
    accepted: bool,
}

fn judge(s: &Snippet, ctx: &mut Ctx) -> Result<(), String> {
    sane();
    ctx.nontrivial(&[s.text.as_bytes()]);
    ctx.label(if s.accepted { "definition with a meaning" } else { "definition without a meaning" });
    ctx.sample(|| s.text.clone());
    let (ok, err) = compile(&s.text);
    match (ok, s.accepted) {
        (true, false) => Err(format!("{}: a definition without a meaning is accepted:\n{}", s.name, s.text)),
        (false, true) => Err(format!("{}: a definition with a meaning is refused ({}):\n{}", s.name, messages(&err), s.text)),
        _ => Ok(()),
    }
}

const HEAD: &str = "#![allow(unused_imports, dead_code)]\nuse ssz::{Decode as _, Encode as _};\nuse ssz_derive::{Decode, Encode};\n";

fn union(derive: &str, n: usize, body: &str) -> String {
    let vs: Vec<String> = (0..n).map(|i| format!("V{i}({body})")).collect();
    format!("{HEAD}#[derive({derive})]\n#[ssz(enum_behaviour = \"union\")]\npub enum E {{ {} }}\n", vs.join(", "))
}

/// Transparent struct; each field is given by its attribute and type.
fn transparent(derive: &str, fields: &[(&str, &str)], tuple: bool) -> String {
    let attr = |a: &str| if a.is_empty() { String::new() } else { format!("#[ssz({a})] ") };
    let fs: Vec<String> = fields
        .iter()
        .enumerate()
        .map(|(i, (a, t))| if tuple { format!("{}pub {t}", attr(a)) } else { format!("{}pub f{i}: {t}", attr(a)) })
        .collect();
    let body = fs.join(", ");
    let body = if tuple { format!("({body});") } else { format!("{{ {body} }}") };
    format!("{HEAD}#[derive({derive})]\n#[ssz(struct_behaviour = \"transparent\")]\npub struct S{body}\n")
}

fn snippets(env: &Env) -> Vec<Snippet> {
    let mut out = vec![];
    let mut add = |name: String, text: String, accepted: bool| out.push(Snippet { name, text, accepted });
    for d in ["Encode", "Decode"] {
        for n in [1usize, 2, 127, 128] {
            add(format!("{d}, union of {n} variants"), union(d, n, "u8"), true);
        }
        for n in [0usize, 129, 130, 200, 255, 256, 257, 300, 512] {
            add(format!("{d}, union of {n} variants"), union(d, n, "u8"), false);
        }
        add(format!("{d}, union of 129 variable variants"), union(d, 129, "Vec<u8>"), false);
        let (own, other) = if d == "Encode" {
            ("skip_serializing", "skip_deserializing")
        } else {
            ("skip_deserializing", "skip_serializing")
        };
        let both = "skip_serializing, skip_deserializing";
        let live = ["", other];
        for tuple in [false, true] {
            let kind = if tuple { "tuple" } else { "named" };
            for n in 0..=4usize {
                // Fields are live where the mask has a one.
                for mask in 0..1usize << n {
                    let k = mask.count_ones();
                    if n == 4 && !matches!(mask, 0 | 1 | 8 | 9 | 6 | 15) {
                        continue;
                    }
                    let fs: Vec<(&str, &str)> = (0..n)
                        .map(|i| {
                            let t = ["u8", "Vec<u8>", "u16", "Vec<u32>"][(i + mask) % 4];
                            if mask >> i & 1 == 1 {
                                (live[(i + mask / 2) % 2], t)
                            } else {
                                (if (i + mask) % 2 == 0 { own } else { both }, t)
                            }
                        })
                        .collect();
                    add(format!("{d}, transparent {kind} struct of {n} fields, live {mask:b}"), transparent(d, &fs, tuple), k == 1);
                }
            }
        }
        add(format!("{d}, transparent unit struct"), format!("{HEAD}#[derive({d})]\n#[ssz(struct_behaviour = \"transparent\")]\npub struct S;\n"), false);
        for (i, (a, vs, ok)) in [
            ("", "A, B", false),
            ("", "A(u8), B(u16)", false),
            ("", "A(Vec<u8>)", false),
            ("", "A", false),
            ("#[ssz()]", "A, B", false),
            ("#[ssz(enum_behaviour = \"\")]", "A, B", false),
            ("#[ssz(enum_behaviour = \"container\")]", "A, B", false),
            ("#[ssz(struct_behaviour = \"transparent\")]", "A(Vec<u8>)", false),
            ("#[ssz(struct_behaviour = \"container\")]", "A(Vec<u8>)", false),
            ("#[ssz(enum_behaviour = \"tag\")]", "A, B", true),
            ("#[ssz(enum_behaviour = \"tag\")]", "A", true),
            ("#[ssz(enum_behaviour = \"union\")]", "A(u8), B(u16)", true),
            ("#[ssz(enum_behaviour = \"union\")]", "A(Vec<u8>)", true),
            ("#[ssz(enum_behaviour = \"transparent\")]", "A(Vec<u8>)", true),
        ]
        .iter()
        .enumerate()
        {
            add(format!("{d}, enum behaviour {i}"), format!("{HEAD}#[derive({d})]\n{a}\npub enum E {{ {vs} }}\n"), *ok);
        }
    }
    // The same with both derives at once, sizes and positions drawn from the seed.
    let mut src = Source::random(hash_bytes(env.seed, b"snippets"));
    let types = ["u8", "u64", "bool", "Vec<u8>", "Vec<u16>", "Option<u8>", "(u8, Vec<u8>)", "[u8; 4]"];
    for k in 0..env.cases(16, 8) {
        let d = *src.pick(&["Encode", "Decode", "Encode, Decode"]);
        let n = 129 + src.below(200);
        let t = *src.pick(&types);
        add(format!("drawn {k}: {d}, union of {n} variants"), union(d, n, t), false);
        let n = 1 + src.below(128);
        add(format!("drawn {k}: {d}, union of {n} variants"), union(d, n, t), true);
        let n = 1 + src.below(7);
        let mut a = src.below(n);
        let mut b = src.below(n);
        if src.one_in(3) {
            (a, b) = (n, n);
        }
        let fs: Vec<(&str, &str)> = (0..n)
            .map(|i| (if i == a || i == b { "" } else { "skip_serializing, skip_deserializing" }, *src.pick(&types)))
            .collect();
        let tuple = src.boolean();
        let live = fs.iter().filter(|f| f.0.is_empty()).count();
        add(format!("drawn {k}: {d}, transparent struct with {live} of {n} live fields"), transparent(d, &fs, tuple), live == 1);
    }
    out
}

/// Definitions which the harness does not compile with.
#[cfg(not(manual))]
pub fn refused(what: &'static str, text: &'static str) -> Job {
    Job::indexed(what, 1, move |_, ctx| {
        sane();
        ctx.nontrivial(&[text.as_bytes()]);
        let text = text.replace("include!(\"prelude.rs\");", "").replace("#![allow", "#[allow").replace("//!", "//");
        match compile(&text) {
            (false, err) => Err(format!("definitions with a meaning are refused ({})", messages(&err))),
            (true, _) => panic!("harness: {what} compile alone but not in the harness"),
        }
    })
}

pub fn jobs(env: &Env) -> Vec<Job> {
    let level = env!("DERIVED_NOGEN");
    codec::rustc::init("derived", level);
    let mut jobs = vec![];
    for s in snippets(env) {
        jobs.push(Job::indexed(format!("rustc: {}", s.name), 1, move |_, ctx| judge(&s, ctx)));
    }
    if level == "1" || level == "2" {
        jobs.push(generated(include_str!(concat!(env!("OUT_DIR"), "/full.rs")), include_str!("prelude.rs")));
    }
    jobs
}
