//! The harness's models and generators compiled against sval without its alloc features (C23).
#![allow(dead_code)]
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/ev.rs"]
mod ev;
#[path = "../../harness/src/fmtm.rs"]
mod fmtm;
#[path = "../../harness/src/jsonm.rs"]
mod jsonm;
#[path = "../../harness/src/val.rs"]
mod val;
mod checks;
mod c23;
#[path = "../../harness/src/cli.rs"]
mod cli;

fn main() {
    static ALL: &[&engine::Check] = &[&c23::C23];
    cli::main_with(ALL)
}
