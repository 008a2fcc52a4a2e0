//! Harness interface. Under symx these calls make bytes symbolic and turn checks into solver
//! queries; natively (replay) they read a recorded input and report failed checks.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};

mod ffi {
    extern "C" {
        pub fn vp_sym(p: *mut u8, n: usize);
        pub fn vp_assume(c: u32);
        pub fn vp_check(c: u32, p: *const u8, n: usize);
        pub fn vp_fail(p: *const u8, n: usize);
        pub fn vp_reach(p: *const u8, n: usize);
        pub fn vp_conc(v: u64) -> u64;
        pub fn vp_log(v: u64);
        pub fn vp_param(i: u64) -> u64;
        pub fn vp_stub_fmt(on: u32);
    }
}

pub fn fill(b: &mut [u8]) {
    unsafe { ffi::vp_sym(b.as_mut_ptr(), b.len()) }
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
pub fn u8() -> u8 {
    arr::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(arr())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(arr())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(arr())
}
pub fn i16() -> i16 {
    u16() as i16
}
pub fn f32() -> f32 {
    f32::from_bits(u32())
}
/// any float but a NaN (NaN payloads are not comparable with ==)
pub fn real() -> f32 {
    let b = u32();
    assume(b & 0x7f80_0000 != 0x7f80_0000 || b & 0x7f_ffff == 0);
    f32::from_bits(b)
}
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
pub fn assume(c: bool) {
    unsafe { ffi::vp_assume(c as u32) }
}
#[inline(never)]
pub fn check(c: bool, id: &str) {
    unsafe { ffi::vp_check(c as u32, id.as_ptr(), id.len()) }
}
#[inline(never)]
pub fn fail(id: &str) {
    unsafe { ffi::vp_fail(id.as_ptr(), id.len()) }
}
#[inline(never)]
pub fn reach(id: &str) {
    unsafe { ffi::vp_reach(id.as_ptr(), id.len()) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { ffi::vp_conc(v) }
}
pub fn log(v: u64) {
    unsafe { ffi::vp_log(v) }
}
pub fn log_bytes(b: &[u8]) {
    log(b.len() as u64);
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        log(u64::from_le_bytes(x));
    }
}
pub fn param(i: u64) -> u64 {
    unsafe { ffi::vp_param(i) }
}
/// text produced by format!() becomes an empty string (used where it only reaches error messages)
pub fn stub_format() {
    unsafe { ffi::vp_stub_fmt(1) }
}
/// a value in 0..n; every one of them is explored
pub fn choice(n: u64) -> u64 {
    let b = if n <= 256 { u8() as u64 } else { u16() as u64 };
    assume(b < n);
    conc(b)
}
pub fn flag() -> bool {
    choice(2) == 1
}

/// Allocations are bounded: anything above the limit is reported instead of served.
pub struct Lim;
pub static mut LIMIT: usize = 1 << 28;
pub fn alloc_limit(n: usize) {
    unsafe { LIMIT = n }
}
#[cold]
#[inline(never)]
fn too_big() {
    fail("alloc.limit")
}
unsafe impl GlobalAlloc for Lim {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            too_big();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            too_big();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT {
            too_big();
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Lim = Lim;

/// Compare byte strings as one condition (no branch per byte).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(0u8, |x, (p, q)| x | (p ^ q)) == 0
}

/// Reader over a byte string for symbolic file positions: a seek beyond the end is one case, and
/// positions inside the data are enumerated. `Seek`/`Read` results are those of `Cursor<&[u8]>`.
pub struct Rd<'a> {
    pub data: &'a [u8],
    pos: u64,
    idx: usize,
}
impl<'a> Rd<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Rd { data, pos: 0, idx: 0 }
    }
}
impl std::io::Read for Rd<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.data.len() - self.idx);
        let n = conc(n as u64) as usize;
        b[..n].copy_from_slice(&self.data[self.idx..self.idx + n]);
        self.idx += n;
        self.pos += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for Rd<'_> {
    fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> {
        let (base, off) = match s {
            std::io::SeekFrom::Start(n) => (n, 0),
            std::io::SeekFrom::End(n) => (self.data.len() as u64, n),
            std::io::SeekFrom::Current(n) => (self.pos, n),
        };
        match base.checked_add_signed(off) {
            Some(p) => {
                if p < self.data.len() as u64 {
                    self.pos = conc(p);
                    self.idx = self.pos as usize;
                } else {
                    self.pos = p;
                    self.idx = self.data.len();
                }
                Ok(p)
            }
            None => Err(std::io::ErrorKind::InvalidInput.into()),
        }
    }
}
