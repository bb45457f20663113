#[path = "../curated.rs"]
mod curated;
#[path = "../legacy.rs"]
mod legacy;
#[path = "../proto.rs"]
mod proto;

fn main() {
    engine::main(&proto::all())
}
