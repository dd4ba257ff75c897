#[macro_use]
pub mod engine;
pub mod gen;
pub mod refmath;
pub mod scratch;
