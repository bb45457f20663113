pub mod alloc;
pub mod consts;
pub mod cov;
pub mod gen;
mod guide;
pub mod run;
pub mod schema;
pub mod source;
pub mod typegen;

pub use run::{lib, main, main_with, Ctx, Env, Job, Probe, Prop};
pub use schema::{Schema, Side, Val};
pub use source::Source;
