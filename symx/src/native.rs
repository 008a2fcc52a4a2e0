//! Replays concrete inputs against the real compiled code: the harness shared object is loaded and
//! called in a child process per input; the vp_* interface below feeds the recorded bytes.
use crate::*;
use std::ffi::{c_char, c_int, c_void, CString};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn pipe(f: *mut c_int) -> c_int;
    fn read(f: c_int, b: *mut u8, n: usize) -> isize;
    fn write(f: c_int, b: *const u8, n: usize) -> isize;
    fn close(f: c_int) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn alarm(s: u32) -> u32;
    fn _exit(c: c_int) -> !;
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

struct Env {
    input: Vec<u8>,
    pos: usize,
    params: Vec<u64>,
    fd: c_int,
}
static mut ENV: Env = Env { input: vec![], pos: 0, params: vec![], fd: 1 };

#[allow(static_mut_refs)]
fn env() -> &'static mut Env {
    unsafe { &mut *std::ptr::addr_of_mut!(ENV) }
}
fn emit(tag: u8, b: &[u8]) {
    let mut v = vec![tag];
    v.extend((b.len() as u32).to_le_bytes());
    v.extend(b);
    let mut p = 0;
    while p < v.len() {
        let n = unsafe { write(env().fd, v[p..].as_ptr(), v.len() - p) };
        if n <= 0 {
            break;
        }
        p += n as usize;
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_sym(p: *mut u8, n: usize) {
    let e = env();
    for i in 0..n {
        let b = e.input.get(e.pos).copied();
        if b.is_none() {
            // bytes the recorded path did not ask for
            emit(b'X', b"");
        }
        *p.add(i) = b.unwrap_or(0);
        e.pos += 1;
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_assume(c: u32) {
    if c == 0 {
        emit(b'A', b"");
        _exit(0);
    }
}
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    std::slice::from_raw_parts(p, n)
}
#[no_mangle]
pub unsafe extern "C" fn vp_check(c: u32, p: *const u8, n: usize) {
    if c == 0 {
        emit(b'C', sl(p, n));
    }
}
#[no_mangle]
pub unsafe extern "C" fn vp_fail(p: *const u8, n: usize) {
    emit(b'C', sl(p, n));
    _exit(0);
}
#[no_mangle]
pub unsafe extern "C" fn vp_reach(p: *const u8, n: usize) {
    emit(b'R', sl(p, n));
}
#[no_mangle]
pub unsafe extern "C" fn vp_log(v: u64) {
    emit(b'L', &v.to_le_bytes());
}
#[no_mangle]
pub unsafe extern "C" fn vp_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
pub unsafe extern "C" fn vp_param(i: u64) -> u64 {
    env().params.get(i as usize).copied().unwrap_or(0)
}

#[no_mangle]
pub unsafe extern "C" fn vp_stub_fmt(_: u32) {}
#[used]
static KEEP: [usize; 0] = [];
pub fn keep() -> Vec<*const c_void> {
    vec![vp_sym as *const c_void, vp_assume as *const c_void, vp_check as *const c_void, vp_fail as *const c_void, vp_reach as *const c_void, vp_log as *const c_void, vp_conc as *const c_void, vp_param as *const c_void, vp_stub_fmt as *const c_void]
}

pub fn replay(a: &[String]) -> i32 {
    let so = arg(a, "--so").expect("--so");
    let entry = arg(a, "--entry").expect("--entry");
    let secs = arg(a, "--timeout").map(|x| x.parse::<u32>().unwrap()).unwrap_or(10);
    let inputs: Vec<Vec<u8>> = match arg(a, "--hex") {
        Some(h) => vec![unhex(&h)],
        None => std::fs::read_to_string(arg(a, "--in").expect("--in")).unwrap().lines().map(|l| unhex(l.trim())).collect(),
    };
    env().params = params(a);
    if keep().iter().any(|p| p.is_null()) {
        return 3;
    }
    let f: extern "C" fn();
    unsafe {
        let c = CString::new(so.clone()).unwrap();
        let h = dlopen(c.as_ptr(), 2 | 8);
        if h.is_null() {
            eprintln!("dlopen: {}", std::ffi::CStr::from_ptr(dlerror()).to_string_lossy());
            return 3;
        }
        let c = CString::new(entry.clone()).unwrap();
        let s = dlsym(h, c.as_ptr());
        if s.is_null() {
            eprintln!("no symbol {}", entry);
            return 3;
        }
        f = std::mem::transmute(s);
    }
    let mut o = String::from("[");
    for (i, inp) in inputs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&one(f, inp, secs));
        o.push('\n');
    }
    o.push_str("]\n");
    match arg(a, "--out") {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{}", o),
    }
    0
}

fn one(f: extern "C" fn(), inp: &[u8], secs: u32) -> String {
    let mut pa = [0 as c_int; 2];
    let mut pe = [0 as c_int; 2];
    let mut st: c_int = 0;
    let (mut data, mut err) = (Vec::new(), Vec::new());
    unsafe {
        pipe(pa.as_mut_ptr());
        pipe(pe.as_mut_ptr());
        let pid = fork();
        if pid == 0 {
            close(pa[0]);
            close(pe[0]);
            dup2(pe[1], 2);
            dup2(pe[1], 1);
            let e = env();
            e.input = inp.to_vec();
            e.pos = 0;
            e.fd = pa[1];
            alarm(secs);
            f();
            emit(b'D', &(env().pos as u64).to_le_bytes());
            _exit(0);
        }
        close(pa[1]);
        close(pe[1]);
        let mut b = [0u8; 65536];
        loop {
            let n = read(pa[0], b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&b[..n as usize]);
        }
        loop {
            let n = read(pe[0], b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            if err.len() < 4000 {
                err.extend_from_slice(&b[..n as usize]);
            }
        }
        close(pa[0]);
        close(pe[0]);
        waitpid(pid, &mut st, 0);
    }
    let sig = st & 0x7f;
    let mut p = 0;
    let (mut checks, mut reach, mut logs) = (vec![], vec![], vec![]);
    let (mut done, mut assumed, mut extra) = (false, false, false);
    while p + 5 <= data.len() {
        let t = data[p];
        let n = u32::from_le_bytes(data[p + 1..p + 5].try_into().unwrap()) as usize;
        if p + 5 + n > data.len() {
            break;
        }
        let b = &data[p + 5..p + 5 + n];
        match t {
            b'C' => checks.push(jstr(&String::from_utf8_lossy(b))),
            b'R' => reach.push(jstr(&String::from_utf8_lossy(b))),
            b'L' => logs.push(format!("\"{:x}\"", u64::from_le_bytes(b.try_into().unwrap()))),
            b'D' => done = true,
            b'A' => assumed = true,
            b'X' => extra = true,
            _ => {}
        }
        p += 5 + n;
    }
    let outcome = if !checks.is_empty() {
        "check"
    } else if sig == 14 {
        "hang"
    } else if sig != 0 {
        "crash"
    } else if assumed {
        "assume"
    } else if done {
        "ok"
    } else {
        "exit"
    };
    let et = String::from_utf8_lossy(&err[..err.len().min(1500)]).to_string();
    format!(
        "{{\"outcome\":\"{}\",\"signal\":{},\"checks\":[{}],\"reach\":[{}],\"log\":[{}],\"extra_input\":{},\"stderr\":{}}}",
        outcome,
        sig,
        checks.join(","),
        reach.join(","),
        logs.join(","),
        extra,
        jstr(&et)
    )
}
