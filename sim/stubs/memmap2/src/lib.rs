//! Stand-in for memmap2: the bytes in ordinary memory, aligned to 8. Mappings above 1 GiB fail.
use std::{fs::File, io::{Error, ErrorKind, Read, Result}, ops::{Deref, DerefMut}};
#[derive(Debug)] pub struct Mmap(Vec<u64>, usize);
#[derive(Debug)] pub struct MmapMut(Vec<u64>, usize);
fn view(v: &[u64], n: usize) -> &[u8] { unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, n) } }
fn view_mut(v: &mut [u64], n: usize) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, n) } }
fn make(n: usize) -> Result<Vec<u64>> { if n > 1 << 30 { return Err(Error::new(ErrorKind::OutOfMemory, "mmap")) } Ok(vec![0; n / 8 + 1]) }
impl MmapMut { pub fn map_anon(n: usize) -> Result<Self> { Ok(Self(make(n)?, n)) } pub fn flush(&self) -> Result<()> { Ok(()) } pub fn make_read_only(self) -> Result<Mmap> { Ok(Mmap(self.0, self.1)) } }
/// Where and how much to map.
#[derive(Default, Clone)] pub struct MmapOptions { len: Option<usize> }
impl MmapOptions { pub fn new() -> Self { Self::default() } pub fn len(&mut self, n: usize) -> &mut Self { self.len = Some(n); self } pub fn map_anon(&self) -> Result<MmapMut> { MmapMut::map_anon(self.len.unwrap_or(0)) }
    /// # Safety
    /// None is needed here.
    pub unsafe fn map(&self, f: &File) -> Result<Mmap> { let mut m = Mmap::map(f)?; if let Some(n) = self.len { if n > m.1 { return Err(Error::new(ErrorKind::InvalidInput, "length")) } m.1 = n } Ok(m) } }
impl Mmap {
    pub fn make_mut(self) -> Result<MmapMut> { Ok(MmapMut(self.0, self.1)) }
    /// # Safety
    /// None is needed here.
    pub unsafe fn map(f: &File) -> Result<Self> { let mut b = vec![]; let mut r: &File = f; let mut t = [0u8; 512]; loop { let n = r.read(&mut t)?; if n == 0 { break } b.extend_from_slice(&t[..n]) } let mut v = make(b.len())?; view_mut(&mut v, b.len()).copy_from_slice(&b); Ok(Self(v, b.len())) }
}
impl Deref for Mmap { type Target = [u8]; fn deref(&self) -> &[u8] { view(&self.0, self.1) } }
impl AsRef<[u8]> for Mmap { fn as_ref(&self) -> &[u8] { self } }
impl Deref for MmapMut { type Target = [u8]; fn deref(&self) -> &[u8] { view(&self.0, self.1) } }
impl DerefMut for MmapMut { fn deref_mut(&mut self) -> &mut [u8] { view_mut(&mut self.0, self.1) } }
impl AsMut<[u8]> for MmapMut { fn as_mut(&mut self) -> &mut [u8] { self } }
impl AsRef<[u8]> for MmapMut { fn as_ref(&self) -> &[u8] { self } }
