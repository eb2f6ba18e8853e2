use crate::engine::*;
pub mod bridge;
pub mod buffer;
pub mod core;
pub mod fault;
pub mod flat;
pub mod fmt;
pub mod hints;
pub mod json;
pub mod nested;
pub mod reader;
pub mod tokens;
pub static ALL: &[&Check] = &[
    &json::C01, &json::C02, &json::C03, &json::C04, &bridge::C05, &buffer::C06, &buffer::C07, &buffer::C08, &buffer::C09, &fmt::C10, &fmt::C11, &core::C12, &core::C13, &core::C14, &core::C15, &bridge::C16, &nested::C17, &flat::C18, &core::C20, &fault::C21, &hints::C22, &tokens::C24, &reader::C26, &fault::C27,
];
