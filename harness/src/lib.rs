#![allow(unused, improper_ctypes_definitions)]
#[macro_use]
pub mod rt;
pub mod common;
pub mod graph;
include!("modules.rs");
