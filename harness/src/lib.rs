//! Property harnesses. Each `h_*` function is executed symbolically by the engine and natively
//! (feature `native`) when a recorded path is replayed.
#![allow(clippy::all)]
pub mod sym;
mod floats;
mod gen;
mod genm;
mod mtl;
mod spec;
mod both;
mod text;
mod obj;
include!(concat!(env!("OUT_DIR"), "/table.rs"));
