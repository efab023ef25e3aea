//! What is "compressed" is left as it is.
use std::io::{Read, Result};

pub struct Decoder<R: Read>(R);

impl<R: Read> Decoder<R> {
    pub fn new(r: R) -> Result<Self> {
        Ok(Decoder(r))
    }
}

impl<R: Read> Read for Decoder<R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.0.read(buf)
    }
}
