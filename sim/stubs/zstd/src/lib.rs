//! Stand-in for zstd: the stream as it is.
use std::io::{BufReader, Read};
pub use stream::read::Decoder;
pub mod stream { pub use read::Decoder; pub mod read {
    use super::super::*;
    pub struct Decoder<'a, R>(R, std::marker::PhantomData<&'a ()>);
    impl<R: Read> Decoder<'static, BufReader<R>> { pub fn new(r: R) -> std::io::Result<Self> { Ok(Self(BufReader::new(r), std::marker::PhantomData)) } }
    impl<R: std::io::BufRead> Decoder<'static, R> { pub fn with_buffer(r: R) -> std::io::Result<Self> { Ok(Self(r, std::marker::PhantomData)) } }
    impl<'a, R> Decoder<'a, R> { pub fn get_ref(&self) -> &R { &self.0 } pub fn get_mut(&mut self) -> &mut R { &mut self.0 } pub fn single_frame(self) -> Self { self } }
    impl<'a, R: Read> Read for Decoder<'a, R> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }
} }
