//! Stand-in for clap: the arguments are put in by the harness.
use std::sync::Mutex;
pub use clap_macros::Parser;
pub trait Parser { fn parse() -> Self; }
pub static ARGS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
pub fn get(n: &str) -> Option<String> { ARGS.lock().unwrap().iter().find(|a| a.0 == n).map(|a| a.1.clone()) }
pub trait FromArg { fn from_arg(n: &str) -> Self; }
impl FromArg for String { fn from_arg(n: &str) -> Self { get(n).unwrap_or_default() } }
impl FromArg for Option<String> { fn from_arg(n: &str) -> Self { get(n) } }
