#![allow(non_snake_case)]
//! Exhaustive bounded exploration of festa_rs: shared engine and reference models.
pub mod refm;
pub mod run;
pub mod ecref;
pub mod rng;
pub mod tinyref;
