//! Interface between the harnesses and the symbolic engine. In the symbolic run these functions are
//! interpreted by the engine; in the native replay binary they are defined in main.rs.
extern "C" {
    fn vh_sym(p: *const u8, l: usize, w: u32) -> u64;
    fn vh_choose(p: *const u8, l: usize, n: u64) -> u64;
    fn vh_assume(c: u32);
    fn vh_check(c: u32, p: *const u8, l: usize);
    fn vh_obs(p: *const u8, l: usize, v: u64);
    fn vh_reach(p: *const u8, l: usize);
    fn vh_ctx(p: *const u8, l: usize);
    fn vh_sched(on: u32);
    fn vh_iter(seed: u32);
    fn vh_loops() -> u32;
}
pub fn u64s(n: &str) -> u64 { unsafe { vh_sym(n.as_ptr(), n.len(), 64) } }
pub fn u32s(n: &str) -> u32 { unsafe { vh_sym(n.as_ptr(), n.len(), 32) as u32 } }
pub fn u16s(n: &str) -> u16 { unsafe { vh_sym(n.as_ptr(), n.len(), 16) as u16 } }
pub fn u8s(n: &str) -> u8 { unsafe { vh_sym(n.as_ptr(), n.len(), 8) as u8 } }
pub fn bools(n: &str) -> bool { choose(n, 2) == 1 }
/// A fresh concrete value 0..n on each of n explored branches.
pub fn choose(n: &str, k: u64) -> u64 { unsafe { vh_choose(n.as_ptr(), n.len(), k) } }
pub fn pick<T: Clone>(n: &str, xs: &[T]) -> T { xs[choose(n, xs.len() as u64) as usize].clone() }
pub fn assume(c: bool) { unsafe { vh_assume(c as u32) } }
pub fn check(c: bool, id: &str) { unsafe { vh_check(c as u32, id.as_ptr(), id.len()) } }
pub fn obs(n: &str, v: u64) { unsafe { vh_obs(n.as_ptr(), n.len(), v) } }
pub fn reach(id: &str) { unsafe { vh_reach(id.as_ptr(), id.len()) } }
/// Name of the input class now being exercised: becomes part of the id of a panic or deadlock.
pub fn ctx(id: &str) { unsafe { vh_ctx(id.as_ptr(), id.len()) } }
pub fn sched(on: bool) { unsafe { vh_sched(on as u32) } }
/// Explore k hash seeds (iteration orders of hash maps); call before anything is hashed.
pub fn hash_orders(k: u64) { let i = choose("hash-seed", k); unsafe { vh_iter(i as u32) } }
/// 1 in the symbolic run; natively the number of times a threaded scenario is repeated.
pub fn loops() -> u32 { unsafe { vh_loops() } }
pub fn bytes(n: &str, k: usize) -> Vec<u8> { let mut v = Vec::with_capacity(k); for _ in 0..k { v.push(u8s(n)); } v }
/// `len` bytes of a fixed pattern, three of them symbolic.
pub fn long(n: &str, len: usize, seed: u8) -> Vec<u8> { let mut v: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(7).wrapping_add(seed)).collect(); if len > 0 { for i in [0, len / 2, len - 1] { v[i] = u8s(n) } } v }
/// Bytewise equality without short-circuit (one symbolic condition instead of a branch per byte).
pub fn eqb(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && { let mut d = 0u8; for i in 0..a.len() { d |= a[i] ^ b[i]; } d == 0 } }
pub fn obs_bytes(n: &str, b: &[u8]) { obs(n, b.len() as u64); let mut h = 0u64; for x in b { h = h.rotate_left(5) ^ (*x as u64); } obs(n, h); }
#[macro_export]
macro_rules! harnesses {
    ($table:ident; $($name:ident => $f:path),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $name() { $f() } )*
        pub const $table: &[(&str, fn())] = &[ $( (stringify!($name), $f) ),* ];
    };
}
