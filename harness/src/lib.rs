//! Property-based checks of sval.
pub mod engine;
pub mod checks;
pub mod ev;
pub mod fmtm;
pub mod val;
pub mod dual;
pub mod jsonm;
pub mod cli;
pub use cli::main_with;
