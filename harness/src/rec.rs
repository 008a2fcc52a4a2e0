//! A writer that records which bytes were written.
use crate::vp;
use std::io::{Seek, SeekFrom, Write};

#[derive(Default)]
pub struct Rec {
    pub data: Vec<u8>,
    pub cover: Vec<u8>,
    pub pos: usize,
    pub twice: bool,
    /// bytes that may be rewritten
    pub exempt: usize,
}
impl Write for Rec {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let end = self.pos + b.len();
        if b.is_empty() {
            return Ok(0);
        }
        if self.data.len() < end {
            self.data.resize(end, 0);
            self.cover.resize(end, 0);
        }
        self.data[self.pos..end].copy_from_slice(b);
        for i in self.pos..end {
            if self.cover[i] != 0 && i >= self.exempt {
                self.twice = true;
            }
            self.cover[i] = 1;
        }
        self.pos = end;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Rec {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        let p = match s {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(n) => (self.data.len() as u64).checked_add_signed(n),
            SeekFrom::Current(n) => (self.pos as u64).checked_add_signed(n),
        };
        match p {
            Some(p) => {
                vp::check(p < 1 << 24, "seek.range");
                self.pos = p as usize;
                Ok(p)
            }
            None => Err(std::io::ErrorKind::InvalidInput.into()),
        }
    }
}
impl Rec {
    /// length of the longest run of bytes never written
    pub fn gap(&self) -> usize {
        let (mut best, mut run) = (0, 0);
        for c in &self.cover {
            run = if *c == 0 { run + 1 } else { 0 };
            best = best.max(run);
        }
        best
    }
}
