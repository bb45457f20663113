mod bounds;
mod bytes;
mod field;
mod history;
mod model;
mod plain;
mod setops;
mod text;
#[cfg(feature = "arb")]
mod arb;

#[allow(non_camel_case_types, dead_code)]
mod caps {
    use crate::field::*;
    include!(concat!(env!("OUT_DIR"), "/caps.rs"));
}

use engine::{Env, Job, Prop};
use field::{Kind, Resize, Ty};
use std::sync::OnceLock;

fn types() -> &'static [Ty] {
    static T: OnceLock<Vec<Ty>> = OnceLock::new();
    T.get_or_init(caps::types)
}

fn giants() -> &'static [Ty] {
    static T: OnceLock<Vec<Ty>> = OnceLock::new();
    T.get_or_init(caps::giants)
}

fn resizes() -> &'static [Resize] {
    static T: OnceLock<Vec<Resize>> = OnceLock::new();
    T.get_or_init(caps::resizes)
}

fn ty_of(kind: Kind, n: u64) -> &'static Ty {
    types().iter().find(|t| t.kind == kind && t.n == n).expect("a capacity of the table")
}

/// Fewer cases for the types whose values are large.
fn scaled(t: &Ty, n: u64) -> u64 {
    match (t.kind, t.n) {
        (Kind::Dynamic, _) => n * 12,
        (_, 0..=300) => n,
        (Kind::List, 301..=1100) => n / 2 + 1,
        (Kind::List, 1101..=4100) => n / 5 + 1,
        (Kind::List, 4101..=9000) => n / 10 + 1,
        (Kind::List, 9001..=70000) => n / 40 + 1,
        (Kind::List, _) => n,
        (_, 301..=1100) => n / 3 + 1,
        (_, 1101..=9000) => n / 15 + 1,
        _ => n / 200 + 1,
    }
}

/// Bits of the longest values. Those of a bitvector cannot be chosen.
const SHORT: usize = 300;
const LONG: usize = 2200;

fn small(t: &Ty, n: u64) -> bool {
    match t.kind {
        Kind::Dynamic => true,
        _ => t.n <= n,
    }
}

fn c11(env: &Env) -> Vec<Job> {
    let mut jobs = vec![];
    for t in types() {
        if small(t, env.cases(9, 1) + if env.thorough { 1 } else { 0 }) {
            let total = history::states(t, 10);
            jobs.push(Job::indexed(format!("transitions {}", t.name), total, move |s, c| history::transitions(t, 10, s, c)));
        }
        jobs.push(Job::random(format!("history {}", t.name), env.cases(scaled(t, 150), 20), move |s, c| {
            history::history(t, SHORT, 40, s, c)
        }));
        jobs.push(Job::random(format!("long {}", t.name), env.cases(scaled(t, 25), 20), move |s, c| {
            history::history(t, LONG, 12, s, c)
        }));
    }
    jobs
}

fn c12(env: &Env) -> Vec<Job> {
    let mut jobs = vec![];
    for t in types() {
        if small(t, env.cases(7, 1) + if env.thorough { 3 } else { 0 }) || (t.n == 9 && t.kind == Kind::List) {
            let total = history::states(t, 10);
            jobs.push(Job::indexed(format!("pairs {}", t.name), total, move |s, c| setops::exhaustive(t, 10, s, c)));
        }
        jobs.push(Job::random(format!("random {}", t.name), env.cases(scaled(t, 600), 20), move |s, c| {
            setops::random(t, SHORT, s, c)
        }));
        jobs.push(Job::random(format!("long {}", t.name), env.cases(scaled(t, 60), 20), move |s, c| {
            setops::random(t, LONG, s, c)
        }));
    }
    jobs
}

fn c13(env: &Env) -> Vec<Job> {
    let mut jobs = vec![];
    for t in types() {
        let list = bounds::requests(t);
        let count = if t.kind == Kind::Vector { 1 } else { list.len() as u64 };
        jobs.push(Job::indexed(format!("construct {}", t.name), count, move |s, c| bounds::construct(t, &list, s, c)));
        jobs.push(Job::random(format!("bytes {}", t.name), env.cases(scaled(t, 500), 20), move |s, c| bounds::bytes(t, s, c)));
        jobs.push(Job::random(format!("chain {}", t.name), env.cases(scaled(t, 100), 20), move |s, c| bounds::chain(t, s, c)));
    }
    for t in giants() {
        jobs.push(Job::random(format!("no value of {}", t.name), env.cases(300, 20), move |s, c| bounds::giant(t, s, c)));
    }
    for r in resizes() {
        let (a, b) = (ty_of(Kind::List, r.from), ty_of(Kind::List, r.to));
        let n = if r.to > 2000 { 1 } else { 8 };
        jobs.push(Job::random(format!("resize {} {}", r.from, r.to), env.cases(n, 10), move |s, c| bounds::resize(a, b, r, s, c)));
    }
    jobs
}

fn c14(env: &Env) -> Vec<Job> {
    let mut jobs = vec![];
    for t in types() {
        let blocks = match t.kind {
            Kind::Dynamic => 257,
            _ if t.n <= 24 => 257,
            _ => 1,
        };
        jobs.push(Job::indexed(format!("short {}", t.name), blocks, move |s, c| bytes::short(blocks, t, s, c)));
        if env.thorough && (t.n <= 24 || t.kind == Kind::Dynamic) {
            let blocks = 257 + 65536;
            jobs.push(Job::indexed(format!("three bytes {}", t.name), blocks, move |s, c| bytes::short(blocks, t, s, c)));
        }
        jobs.push(Job::random(format!("random {}", t.name), env.cases(scaled(t, 800), 20), move |s, c| bytes::random(t, s, c)));
        jobs.push(Job::random(format!("value {}", t.name), env.cases(scaled(t, 250), 20), move |s, c| bytes::value(t, s, c)));
    }
    jobs
}

fn c18(env: &Env) -> Vec<Job> {
    let mut jobs = vec![];
    for t in types() {
        let blocks = if t.kind == Kind::Dynamic || t.n <= env.cases(9, 2) { 257 } else { 1 };
        jobs.push(Job::indexed(format!("short {}", t.name), blocks, move |s, c| text::short(t, blocks, s, c)));
        if t.kind == Kind::Dynamic || t.n <= 17 {
            jobs.push(Job::indexed(format!("grammar {}", t.name), text::GRAMMAR, move |s, c| text::grammar(t, s, c)));
        }
        jobs.push(Job::random(format!("near {}", t.name), env.cases(scaled(t, 3000), 20), move |s, c| text::near(t, s, c)));
        jobs.push(Job::random(format!("value {}", t.name), env.cases(scaled(t, 500), 20), move |s, c| text::value(t, s, c)));
    }
    jobs
}

#[cfg(feature = "arb")]
fn c20(env: &Env) -> Vec<Job> {
    let mut jobs = vec![];
    for t in types().iter().filter(|t| t.kind != Kind::Dynamic && t.n >= 1) {
        jobs.push(Job::random(format!("reachable {}", t.name), 1, move |s, c| arb::reachable(t, s, c)));
        let blocks = match t.n {
            0..=9 => 257 + 20,
            10..=1100 => 1,
            _ => 0,
        };
        jobs.push(Job::indexed(format!("short {}", t.name), blocks, move |s, c| arb::short(t, blocks, s, c)));
        jobs.push(Job::random(format!("random {}", t.name), env.cases(scaled(t, 700), 20), move |s, c| arb::random(t, s, c)));
    }
    jobs
}
#[cfg(not(feature = "arb"))]
fn c20(_: &Env) -> Vec<Job> {
    eprintln!("built without the feature");
    std::process::exit(2)
}

fn main() {
    engine::main(&[
        Prop {
            id: "C11",
            rule: "a history of at least 4 steps, or a state with every operation; distinct by type and steps",
            assumptions: &[],
            death_is_violation: true,
            jobs: c11,
        },
        Prop {
            id: "C12",
            rule: "both operands have a set bit; distinct by type and operands",
            assumptions: &[],
            death_is_violation: true,
            jobs: c12,
        },
        Prop {
            id: "C13",
            rule: "every request, byte string, chain and resize; distinct by type and input",
            assumptions: &["the length of a resized bitlist is the new capacity, as its documentation says"],
            death_is_violation: true,
            jobs: c13,
        },
        Prop {
            id: "C14",
            rule: "a non-empty string, or a value with a set bit; blocks of the enumeration with a valid string",
            assumptions: &[],
            death_is_violation: true,
            jobs: c14,
        },
        Prop {
            id: "C18",
            rule: "a string longer than its prefix, or a value with a set bit; distinct by type and string",
            assumptions: &["hex digits may be of either case when read, as in the hex of the Ethereum APIs"],
            death_is_violation: true,
            jobs: c18,
        },
        Prop {
            id: "C20",
            rule: "non-empty data; a capacity for which the search found a value; distinct by type and data",
            assumptions: &["zero-capacity bitfields are not claimed and not tried"],
            death_is_violation: true,
            jobs: c20,
        },
    ])
}
