//! C08: derived codecs against the schema of their definition, and what the macros refuse.
use codec::check::*;
use codec::{Dec, Entry};
use engine::gen::{gen_val, gen_wire, Gen};
use engine::schema::*;
use engine::{Ctx, Env, Job, Prop, Source};
use std::sync::OnceLock;

#[cfg(manual)]
mod byhand;
#[cfg(manual)]
#[macro_use]
mod manual;
#[cfg(names)]
mod names;
mod snippets;

#[allow(unused_imports, dead_code, clippy::all)]
mod generated {
    include!("prelude.rs");
    include!(concat!(env!("OUT_DIR"), "/gen.rs"));
}

fn table() -> &'static [Entry] {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(|| {
        #[cfg(manual)]
        let mut v = manual::table();
        #[cfg(not(manual))]
        let mut v: Vec<Entry> = vec![];
        #[cfg(names)]
        v.extend(names::table());
        for e in generated::table() {
            if v.iter().all(|x| x.name != e.name) {
                v.push(e);
            }
        }
        v
    })
}

fn value_case(e: &Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let mut g = Gen { budget: engine::gen::gen_budget(src), default_skipped: false };
    let v = g.val(&e.schema, src);
    // Skipped fields hold anything: they must not show in the encoding.
    wire_format_val(e, &v, ctx)?;
    sizes_val(e, &v, ctx)?;
    if e.schema.has_one_sided_skip() || e.schema.has_trans_enum() {
        return Ok(());
    }
    let v = gen_val(&e.schema, src);
    roundtrip_val(e, &v, ctx)
}

/// What a value with skipped fields decodes to.
fn skipped_case(e: &Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let mut g = Gen { budget: engine::gen::gen_budget(src), default_skipped: false };
    let v = g.val(&e.schema, src);
    let b = serialize(&e.schema, &v);
    ctx.nontrivial(&[b"skipped", e.name.as_bytes(), &b]);
    exact_bytes(e, &b, "encoding of a value with all fields set", e.schema.has_map_or_set(), ctx)
}

fn bytes_case(e: &Entry, src: &mut Source, ctx: &mut Ctx) -> R {
    let (b, how) = gen_wire(&e.schema, src);
    ctx.label(how);
    if b.len() > 1 {
        ctx.nontrivial(&[e.name.as_bytes(), &b]);
    }
    exact_bytes(e, &b, how, e.schema.has_map_or_set(), ctx)
}

fn jobs(env: &Env) -> Vec<Job> {
    let mut jobs = snippets::jobs(env);
    #[cfg(manual)]
    jobs.extend(byhand::jobs(env));
    #[cfg(not(manual))]
    jobs.push(snippets::refused("hand-written definitions", concat!(include_str!("prelude.rs"), include_str!("manual.rs"))));
    for e in table() {
        jobs.push(Job::random(format!("values {}", e.name), env.cases(400, 20), move |src, ctx| value_case(e, src, ctx)));
        jobs.push(Job::random(format!("bytes {}", e.name), env.cases(1_200, 20), move |src, ctx| bytes_case(e, src, ctx)));
        if e.schema.any(&|s| matches!(s, Schema::Container(f) | Schema::Wrapper(f) if f.iter().any(|f| f.skip_ser || f.skip_de))) {
            jobs.push(Job::random(format!("skipped {}", e.name), env.cases(200, 20), move |src, ctx| skipped_case(e, src, ctx)));
        }
        jobs.push(Job::indexed(format!("metadata {}", e.name), 1, move |_, ctx| metadata(e, ctx)));
        jobs.push(Job::indexed(format!("short strings {}", e.name), 257, move |src, ctx| {
            exact_bytes(e, &short_string(src.draw(u64::MAX)), "exhaustive", e.schema.has_map_or_set(), ctx)
        }));
    }
    let _ = |d: Dec| d;
    jobs
}

fn main() {
    engine::main(&[Prop {
        id: "C08",
        rule: "a definition with a value or an input of at least two bytes, or a definition given to rustc; distinct by definition and bytes",
        assumptions: &["rustc's verdict on a snippet is the macros' verdict: every refused snippet has an accepted twin"],
        death_is_violation: true,
        jobs,
    }])
}
