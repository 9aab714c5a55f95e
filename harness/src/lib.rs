#![allow(clippy::all)]
pub mod vh;
pub mod util;
pub mod filters;
pub mod astore;
pub mod astore2;
pub mod conc;
pub mod codec;
pub mod token;
pub mod tstore;
pub mod ondemand;
pub mod tconc;
pub mod scale;
pub fn all() -> Vec<(&'static str, fn())> { let mut v = Vec::new(); for t in [filters::T, astore::T, astore2::T, conc::T, codec::T, token::T, tstore::T, ondemand::T, tconc::T, scale::T] { v.extend_from_slice(t) } v }
