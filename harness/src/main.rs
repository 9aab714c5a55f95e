//! Native replay: runs one harness on concrete inputs taken from a solver model and prints what happened.
use std::io::Write;
use std::sync::Mutex;
static INP: Mutex<(Vec<(String, u32, u64)>, usize)> = Mutex::new((Vec::new(), 0));
unsafe fn s(p: *const u8, l: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(p, l)).to_string() }
fn out(x: String) { let o = std::io::stdout(); let mut o = o.lock(); let _ = writeln!(o, "{x}"); let _ = o.flush(); }
fn next(n: String, w: u32) -> u64 {
    let mut g = INP.lock().unwrap(); let i = g.1; g.1 += 1;
    if i >= g.0.len() { out(format!("INPUTEND {n}")); std::process::exit(7) }
    let (nn, ww, v) = g.0[i].clone();
    if nn != n || ww != w { out(format!("INPUTMISMATCH want {n}/{w} have {nn}/{ww}")); std::process::exit(7) }
    v
}
#[no_mangle] pub unsafe extern "C" fn vh_sym(p: *const u8, l: usize, w: u32) -> u64 { next(s(p, l), w) }
#[no_mangle] pub unsafe extern "C" fn vh_choose(p: *const u8, l: usize, _n: u64) -> u64 { next(s(p, l), 64) }
#[no_mangle] pub unsafe extern "C" fn vh_assume(c: u32) { if c == 0 { out("ASSUMEFAIL".into()); std::process::exit(0) } }
#[no_mangle] pub unsafe extern "C" fn vh_check(c: u32, p: *const u8, l: usize) { if c == 0 { out(format!("CHECKFAIL {}", s(p, l))); if vh_loops() > 1 { std::process::exit(8) } } }
#[no_mangle] pub unsafe extern "C" fn vh_obs(p: *const u8, l: usize, v: u64) { out(format!("OBS {} {}", s(p, l), v)) }
#[no_mangle] pub unsafe extern "C" fn vh_reach(_p: *const u8, _l: usize) {}
#[no_mangle] pub unsafe extern "C" fn vh_ctx(_p: *const u8, _l: usize) {}
#[no_mangle] pub unsafe extern "C" fn vh_sched(_on: u32) {}
#[no_mangle] pub unsafe extern "C" fn vh_iter(_s: u32) {}
static LOOPS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);
#[no_mangle] pub unsafe extern "C" fn vh_loops() -> u32 { LOOPS.load(std::sync::atomic::Ordering::Relaxed) }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { for h in lam_harness::all() { println!("{}", h.0) } return }
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
    { let mut g = INP.lock().unwrap(); for e in j["inputs"].as_array().unwrap() { g.0.push((e[0].as_str().unwrap().to_string(), e[1].as_u64().unwrap() as u32, e[2].as_u64().unwrap())) } }
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(); out(format!("PANIC {l} {}", i.to_string().replace('\n', " "))) }));
    if a.len() > 3 { LOOPS.store(a[3].parse().unwrap(), std::sync::atomic::Ordering::Relaxed) }
    let f = lam_harness::all().into_iter().find(|h| h.0 == a[1]).expect("harness");
    (f.1)();
    out("DONE".into());
}
