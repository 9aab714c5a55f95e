//! Stand-in for env_logger: logs nothing.
pub const DEFAULT_FILTER_ENV: &str = "RUST_LOG";
#[derive(Default)] pub struct Env;
impl Env { pub fn filter_or(self, _f: &str, _d: &str) -> Self { self } pub fn default_filter_or(self, _d: &str) -> Self { self } }
pub fn init_from_env(_e: Env) {}
pub fn init() {}
