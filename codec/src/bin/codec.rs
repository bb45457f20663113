#[path = "../curated.rs"]
mod curated;
#[path = "../types.rs"]
mod types;
#[path = "../props.rs"]
mod props;

fn main() {
    engine::main_with(&props::all(), &props::probes())
}
