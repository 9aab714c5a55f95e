#![allow(clippy::all)]
#[path = "../../harness/src/vh.rs"] pub mod vh;
#[path = "../../harness/src/util.rs"] pub mod util;
pub mod rpc;
pub mod archive;
pub mod fs;
pub mod whole;
pub fn all() -> Vec<(&'static str, fn())> { let mut v = Vec::new(); for t in [rpc::T, archive::T, whole::T] { v.extend_from_slice(t) } v }
