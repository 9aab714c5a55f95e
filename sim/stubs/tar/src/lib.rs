//! Stand-in for tar: ustar archives read as a stream, entries in order; a header with a wrong mark is an error.
use std::{borrow::Cow, cell::{Cell, RefCell}, io::{Error, ErrorKind, Read, Result}, marker::PhantomData, path::Path};
pub struct Archive<R: Read> { pos: Cell<u64>, r: RefCell<R> }
impl<R: Read> Archive<R> {
    pub fn new(r: R) -> Self { Self { pos: Cell::new(0), r: RefCell::new(r) } }
    pub fn entries(&mut self) -> Result<Entries<'_, R>> { Ok(Entries { a: self, next: 0, done: false }) }
    fn read(&self, b: &mut [u8]) -> Result<usize> { let n = self.r.borrow_mut().read(b)?; self.pos.set(self.pos.get() + n as u64); Ok(n) }
}
pub struct Entries<'a, R: Read> { a: &'a Archive<R>, next: u64, done: bool }
pub struct Entry<'a, R: Read> { a: &'a Archive<R>, name: Vec<u8>, left: u64, size: u64, _p: PhantomData<&'a R> }
pub struct Header { size: u64 }
impl Header { pub fn size(&self) -> Result<u64> { Ok(self.size) } pub fn entry_size(&self) -> Result<u64> { Ok(self.size) } }
/// Called before each entry is read.
pub static BEFORE_ENTRY: std::sync::Mutex<Option<fn()>> = std::sync::Mutex::new(None);
impl<'a, R: Read> Entries<'a, R> {
    fn step(&mut self) -> Result<Option<Entry<'a, R>>> {
        let mut skip = vec![0u8; 512];
        while self.a.pos.get() < self.next { let k = (self.next - self.a.pos.get()).min(512) as usize; if self.a.read(&mut skip[..k])? == 0 { return Err(Error::new(ErrorKind::Other, "unexpected EOF during skip")) } }
        let mut h = vec![0u8; 512]; let mut n = 0;
        while n < 512 { let k = self.a.read(&mut h[n..])?; if k == 0 { if n == 0 { return Ok(None) } return Err(Error::new(ErrorKind::Other, "failed to read entire block")) } n += k }
        if h[0] == 0 { return Ok(None) }
        if &h[257..262] != b"ustar" { return Err(Error::new(ErrorKind::Other, "archive header checksum mismatch")) }
        let mut size = 0u64; for c in &h[124..135] { size = size * 8 + (*c - b'0') as u64 }
        let e = h.iter().position(|c| *c == 0).unwrap_or(100).min(100);
        self.next = self.a.pos.get() + (size + 511) / 512 * 512;
        h.truncate(e);
        Ok(Some(Entry { a: self.a, name: h, left: size, size, _p: PhantomData }))
    }
}
impl<'a, R: Read> Iterator for Entries<'a, R> {
    type Item = Result<Entry<'a, R>>;
    fn next(&mut self) -> Option<Self::Item> {
        let f = *BEFORE_ENTRY.lock().unwrap(); if let Some(f) = f { f() }
        if self.done { return None }
        match self.step() { Ok(Some(e)) => Some(Ok(e)), Ok(None) => { self.done = true; None } Err(e) => { self.done = true; Some(Err(e)) } }
    }
}
impl<'a, R: Read> Entry<'a, R> {
    pub fn path(&self) -> Result<Cow<'_, Path>> {
        match std::str::from_utf8(&self.name) { Ok(s) => Ok(Cow::Borrowed(Path::new(s))), Err(_) => Err(Error::new(ErrorKind::Other, "path is not utf-8")) }
    }
    pub fn path_bytes(&self) -> Cow<'_, [u8]> { Cow::Borrowed(&self.name) }
    pub fn header(&self) -> Header { Header { size: self.size } }
    pub fn size(&self) -> u64 { self.size }
}
impl<'a, R: Read> Read for Entry<'a, R> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> { let k = (b.len() as u64).min(self.left) as usize; let n = self.a.read(&mut b[..k])?; self.left -= n as u64; Ok(n) }
}
/// One entry of an archive.
pub fn entry(name: &[u8], data: &[u8]) -> Vec<u8> {
    let mut h = vec![0u8; 512]; h[..name.len()].copy_from_slice(name); h[257..262].copy_from_slice(b"ustar");
    let mut n = data.len(); for i in (124..135).rev() { h[i] = b'0' + (n % 8) as u8; n /= 8 }
    h.extend_from_slice(data); h.resize((h.len() + 511) / 512 * 512, 0); h
}
