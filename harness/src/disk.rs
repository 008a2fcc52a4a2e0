//! A disk of the harness's own: the C library calls that std's files end in, over files in memory.
//! The real std::fs code runs on top of it, symbolically and natively. At one operation of the
//! caller's choice the disk misbehaves.
use crate::vp;
use std::ffi::CStr;

#[derive(Default)]
pub struct Disk {
    pub files: Vec<(Vec<u8>, Vec<u8>)>,
    fds: Vec<Option<(usize, usize, bool, bool)>>,
    /// operations so far
    pub ops: u64,
    /// the operations that misbehave, and how
    pub faults: [(u64, Fault); 2],
    pub struck: bool,
}
#[derive(Default, PartialEq, Clone, Copy)]
pub enum Fault {
    #[default]
    None,
    /// fails for good from here on
    Error,
    /// fails this time with "interrupted"
    Interrupted,
    /// moves one byte only
    Short,
    /// moves all bytes but one
    Most,
    /// moves half of the bytes, and everything after that fails
    Half,
    /// fails once
    Once,
}
/// how operation number `op` goes
pub fn fate(faults: &[(u64, Fault); 2], op: u64) -> Fault {
    let mut r = Fault::None;
    for (at, f) in faults {
        match f {
            Fault::Error | Fault::Half if op > *at => return Fault::Error,
            _ if op == *at && *f != Fault::None => r = *f,
            _ => {}
        }
    }
    r
}
/// params k and k + 1: the kinds; when: one of `n` operations each
pub fn faults(k: u64, n: u64) -> [(u64, Fault); 2] {
    [k, k + 1].map(|k| match vp::param(k) {
        0 => (0, Fault::None),
        f => (vp::choice(n), [Fault::Error, Fault::Interrupted, Fault::Short, Fault::Most, Fault::Half, Fault::Once][f as usize - 1]),
    })
}
pub static mut DISK: Option<Disk> = None;
static mut ERRNO: i32 = 0;
const FIRST: i32 = 100;
const EIO: i32 = 5;

pub fn disk() -> &'static mut Disk {
    unsafe { DISK.get_or_insert_with(Disk::default) }
}
impl Disk {
    pub fn get(&self, p: &str) -> Option<&Vec<u8>> {
        self.files.iter().find(|f| f.0 == p.as_bytes()).map(|f| &f.1)
    }
    pub fn put(&mut self, p: &str, b: &[u8]) {
        self.files.push((p.as_bytes().to_vec(), b.to_vec()));
    }
    pub fn open(&self) -> usize {
        self.fds.iter().filter(|f| f.is_some()).count()
    }
    /// how this operation goes
    fn next(&mut self) -> Fault {
        self.ops += 1;
        fate(&self.faults, self.ops - 1)
    }
    /// Some(error) when an operation without bytes to move fails
    fn plain(&mut self) -> Option<i32> {
        match self.next() {
            Fault::Error | Fault::Once => Some(EIO),
            Fault::Interrupted => Some(4),
            _ => None,
        }
    }
    /// how many of `n` bytes are moved
    fn some(&mut self, n: usize) -> Result<usize, i32> {
        match self.next() {
            Fault::None => Ok(n),
            Fault::Error | Fault::Once => Err(EIO),
            Fault::Interrupted => Err(4),
            Fault::Short => Ok(n.min(1)),
            Fault::Most | Fault::Half if n < 2 => Ok(n),
            Fault::Most => Ok(n - 1),
            Fault::Half => Ok(n / 2),
        }
    }
}
fn no(e: i32) -> i32 {
    disk().struck |= e == EIO;
    unsafe { ERRNO = e };
    -1
}
extern "C" {
    fn syscall(n: i64, a: i64, b: *const u8, c: usize) -> i64;
}
#[no_mangle]
pub extern "C" fn __errno_location() -> *mut i32 {
    std::ptr::addr_of_mut!(ERRNO)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, flags: i32, _mode: u32) -> i32 {
    let d = disk();
    if let Some(e) = d.plain() {
        return no(e);
    }
    let p = CStr::from_ptr(p).to_bytes();
    let (acc, creat, excl, trunc, append) = (flags & 3, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
    let k = match d.files.iter().position(|f| f.0 == p) {
        Some(_) if creat && excl => return no(17),
        Some(k) => k,
        None if creat => {
            d.files.push((p.to_vec(), Vec::new()));
            d.files.len() - 1
        }
        None => return no(2),
    };
    if trunc && acc != 0 {
        d.files[k].1.clear();
    }
    let pos = if append { d.files[k].1.len() } else { 0 };
    d.fds.push(Some((k, pos, acc != 1, acc != 0)));
    FIRST + d.fds.len() as i32 - 1
}
fn fd(f: i32) -> Option<&'static mut (usize, usize, bool, bool)> {
    disk().fds.get_mut((f - FIRST) as usize)?.as_mut()
}
#[no_mangle]
pub unsafe extern "C" fn write(f: i32, b: *const u8, n: usize) -> isize {
    if f < FIRST {
        return syscall(1, f as i64, b, n) as isize;
    }
    let Some(h) = fd(f).filter(|h| h.3) else {
        return no(9) as isize;
    };
    match disk().some(n) {
        Err(e) => no(e) as isize,
        Ok(n) => {
            let v = &mut disk().files[h.0].1;
            let end = h.1 + n;
            if v.len() < end {
                v.resize(end, 0);
            }
            v[h.1..end].copy_from_slice(std::slice::from_raw_parts(b, n));
            h.1 = end;
            n as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(f: i32, b: *mut u8, n: usize) -> isize {
    let Some(h) = fd(f).filter(|h| h.2) else {
        return no(9) as isize;
    };
    let v = &disk().files[h.0].1;
    let n = n.min(v.len().saturating_sub(h.1));
    match disk().some(n) {
        Err(e) => no(e) as isize,
        Ok(n) => {
            std::ptr::copy_nonoverlapping(v[h.1..].as_ptr(), b, n);
            h.1 += n;
            n as isize
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(f: i32, o: i64, whence: i32) -> i64 {
    let Some(h) = fd(f) else {
        return no(9) as i64;
    };
    if let Some(e) = disk().plain() {
        return no(e) as i64;
    }
    let base = [0, h.1, disk().files[h.0].1.len()][whence as usize] as i64;
    if base + o < 0 {
        return no(22) as i64;
    }
    h.1 = (base + o) as usize;
    base + o
}
#[no_mangle]
pub unsafe extern "C" fn close(f: i32) -> i32 {
    disk().fds[(f - FIRST) as usize] = None;
    0
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(f: i32, n: i64) -> i32 {
    let Some(h) = fd(f) else {
        return no(9);
    };
    if let Some(e) = disk().plain() {
        return no(e);
    }
    disk().files[h.0].1.resize(n as usize, 0);
    0
}
#[no_mangle]
pub extern "C" fn fsync(_: i32) -> i32 {
    disk().plain().map_or(0, no)
}
#[no_mangle]
pub extern "C" fn fdatasync(_: i32) -> i32 {
    disk().plain().map_or(0, no)
}
fn find(p: &[u8]) -> Option<usize> {
    disk().files.iter().position(|f| f.0 == p)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const i8) -> i32 {
    if let Some(e) = disk().plain() {
        return no(e);
    }
    match find(CStr::from_ptr(p).to_bytes()) {
        // (open files keep their numbers)
        Some(k) => {
            disk().files[k].0 = b"\0".to_vec();
            0
        }
        None => no(2),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const i8, q: *const i8) -> i32 {
    if let Some(e) = disk().plain() {
        return no(e);
    }
    let q = CStr::from_ptr(q).to_bytes().to_vec();
    match find(CStr::from_ptr(p).to_bytes()) {
        Some(k) => {
            if let Some(old) = find(&q) {
                disk().files[old].0 = b"\0".to_vec();
            }
            disk().files[k].0 = q;
            0
        }
        None => no(2),
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(f: i32, p: *const i8, _flags: i32, _mask: u32, out: *mut u8) -> i32 {
    if out.is_null() {
        return no(14);
    }
    let k = match fd(f) {
        Some(h) => h.0,
        None if p.is_null() => return no(9),
        None => match find(CStr::from_ptr(p).to_bytes()) {
            Some(k) => k,
            None => return no(2),
        },
    };
    if let Some(e) = disk().plain() {
        return no(e);
    }
    std::ptr::write_bytes(out, 0, 256);
    // mask, block size, links, mode (a regular file), size
    (out as *mut u32).write(0xfff);
    (out.add(4) as *mut u32).write(4096);
    (out.add(16) as *mut u32).write(1);
    (out.add(28) as *mut u16).write(0o100644);
    (out.add(40) as *mut u64).write(disk().files[k].1.len() as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(_: i32, _: i32, _: i32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(_: i32, _: i32, _: i32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut [i64; 2]) -> i32 {
    *t = [1000, 0];
    0
}
