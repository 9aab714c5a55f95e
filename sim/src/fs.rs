//! Files under /lamfs exist in memory only; native runs pass every other path to the system.
use std::{ffi::CStr, sync::Mutex};
pub static FILES: Mutex<Vec<(String, Vec<u8>)>> = Mutex::new(Vec::new());
static OPEN: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
const FD: i32 = 7000;
pub fn put(name: &str, data: Vec<u8>) { FILES.lock().unwrap().push((name.to_string(), data)) }
#[cfg(target_arch = "x86_64")]
unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 { let r: i64; std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, out("rcx") _, out("r11") _); r }
extern "C" { fn __errno_location() -> *mut i32; }
unsafe fn ret(r: i64) -> i64 { if r < 0 { *__errno_location() = -r as i32; -1 } else { r } }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const i8, flags: i32, mode: i32) -> i32 {
    let n = CStr::from_ptr(p).to_str().unwrap_or("");
    if n.starts_with("/lamfs/") {
        match FILES.lock().unwrap().iter().position(|f| f.0 == n) { Some(i) => { let mut o = OPEN.lock().unwrap(); o.push((i, 0)); return FD + o.len() as i32 - 1 } None => return ret(-2) as i32 }
    }
    ret(sys(257, -100, p as i64, flags as i64, mode as i64)) as i32
}
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if fd < FD { return ret(sys(0, fd as i64, b as i64, n as i64, 0)) as isize }
    let mut o = OPEN.lock().unwrap(); let o = &mut o[(fd - FD) as usize]; let f = FILES.lock().unwrap(); let d = &f[o.0].1[o.1..];
    let k = n.min(d.len()); std::ptr::copy_nonoverlapping(d.as_ptr(), b, k); o.1 += k; k as isize
}
#[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 { if fd < FD { ret(sys(3, fd as i64, 0, 0, 0)) as i32 } else { 0 } }

/// 1: a file, 2: a directory.
fn kind(n: &str) -> (u32, u64) { let f = FILES.lock().unwrap(); match f.iter().find(|f| f.0 == n) { Some(f) => (1, f.1.len() as u64), None => if f.iter().any(|f| f.0.len() > n.len() && f.0.starts_with(n) && (n.ends_with('/') || f.0.as_bytes()[n.len()] == b'/')) { (2, 0) } else { (0, 0) } } }
unsafe fn fill(b: *mut u8, n: usize, mode_at: usize, size_at: usize, k: (u32, u64), wide: bool) {
    std::ptr::write_bytes(b, 0, n); let m = if k.0 == 1 { 0o100644u32 } else { 0o040755 };
    if wide { *(b.add(mode_at) as *mut u32) = m } else { *(b.add(mode_at) as *mut u16) = m as u16 }
    *(b.add(size_at) as *mut u64) = k.1;
}
unsafe fn name<'a>(p: *const i8) -> &'a str { CStr::from_ptr(p).to_str().unwrap_or("") }
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const i8, b: *mut u8) -> i32 {
    let n = name(p); if !n.starts_with("/lamfs/") { return ret(sys(4, p as i64, b as i64, 0, 0)) as i32 }
    let k = kind(n); if k.0 == 0 { return ret(-2) as i32 } fill(b, 144, 24, 48, k, true); 0
}
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: i32, b: *mut u8) -> i32 {
    if fd < FD { return ret(sys(5, fd as i64, b as i64, 0, 0)) as i32 }
    let i = OPEN.lock().unwrap()[(fd - FD) as usize].0; let n = FILES.lock().unwrap()[i].1.len() as u64; fill(b, 144, 24, 48, (1, n), true); 0
}
#[no_mangle] pub unsafe extern "C" fn statx(d: i32, p: *const i8, _flags: i32, _mask: u32, b: *mut u8) -> i32 {
    let n = name(p);
    if d >= FD { let i = OPEN.lock().unwrap()[(d - FD) as usize].0; let n = FILES.lock().unwrap()[i].1.len() as u64; fill(b, 256, 28, 40, (1, n), false); *(b as *mut u32) = 0x7ff; return 0 }
    if !n.starts_with("/lamfs/") { return ret(-38) as i32 }
    let k = kind(n); if k.0 == 0 { return ret(-2) as i32 } fill(b, 256, 28, 40, k, false); *(b as *mut u32) = 0x7ff; 0
}
struct Dir { names: Vec<String>, at: usize, entry: Vec<u64> }
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const i8) -> *mut u8 {
    let mut n = name(p).to_string(); if !n.starts_with("/lamfs/") || kind(&n).0 != 2 { ret(-2); return std::ptr::null_mut() }
    if !n.ends_with('/') { n.push('/') }
    let mut names = vec![".".to_string(), "..".to_string()];
    for f in FILES.lock().unwrap().iter() { if f.0.starts_with(&n) { let x = f.0[n.len()..].split('/').next().unwrap().to_string(); if !x.is_empty() && !names.contains(&x) { names.push(x) } } }
    Box::into_raw(Box::new(Dir { names, at: 0, entry: vec![0; 35] })) as *mut u8
}
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
    let d = &mut *(d as *mut Dir); if d.at >= d.names.len() { return std::ptr::null_mut() }
    let n = d.names[d.at].as_bytes(); d.at += 1; let e = d.entry.as_mut_ptr() as *mut u8; std::ptr::write_bytes(e, 0, 280);
    *(e as *mut u64) = d.at as u64; *(e.add(16) as *mut u16) = 280; std::ptr::copy_nonoverlapping(n.as_ptr(), e.add(19), n.len()); e
}
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut u8) -> i32 { drop(Box::from_raw(d as *mut Dir)); 0 }
