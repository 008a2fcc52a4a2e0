//! Intrinsics, the C library calls std bottoms out in, and the harness interface (vp_*).
use crate::exec::*;
use crate::expr::*;
use crate::ir::Ty;
use std::rc::Rc;

type Rs<T> = Result<T, Stop>;

const KNOWN: &[&str] = &[
    "vp_sym", "vp_assume", "vp_check", "vp_fail", "vp_reach", "vp_conc", "vp_log", "vp_param", "vp_stub_fmt", "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memcpy", "memmove", "memset", "memcmp", "bcmp",
    "strlen", "abort", "write", "writev", "getenv", "getrandom", "dlsym", "syscall", "__cxa_thread_atexit_impl", "__errno_location", "pthread_self", "pthread_key_create", "pthread_setspecific", "pthread_getspecific", "roundf", "round", "floorf", "ceilf", "truncf", "sqrtf", "sqrt", "fmodf", "fmod", "sinf", "cosf", "acosf", "asinf", "atan2f", "powf", "expf", "logf", "tanf", "pow", "sin", "cos", "exp", "log", "acos", "asin", "tan", "atan2",
];
pub fn known(n: &str) -> bool {
    KNOWN.contains(&n)
}

fn lanes(ret: &Ty) -> Option<(usize, Ty)> {
    match ret {
        Ty::Vec(n, e) => Some((*n as usize, (**e).clone())),
        _ => None,
    }
}

extern "C" {
    fn sinf(x: f32) -> f32;
    fn cosf(x: f32) -> f32;
    fn acosf(x: f32) -> f32;
    fn asinf(x: f32) -> f32;
    fn atan2f(x: f32, y: f32) -> f32;
    fn powf(x: f32, y: f32) -> f32;
    fn tanf(x: f32) -> f32;
}

impl Exec {
    fn arg_u64(&mut self, st: &mut State, v: &Val) -> Rs<u64> {
        Ok(self.concretise(st, v, 64)? as u64)
    }
    fn loc_of(&mut self, st: &mut State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let Val::C(p) = a {
                let p = *p as u64;
                if self.obj_size(st, p).ok() == Some(24) {
                    let r = (|| -> Rs<String> {
                        let f = self.load(st, &Val::C(p as u128), &Ty::Ptr)?;
                        let l = self.load(st, &Val::C(p as u128 + 8), &Ty::Int(64))?;
                        let line = self.load(st, &Val::C(p as u128 + 16), &Ty::Int(32))?;
                        if let (Val::C(f), Val::C(l), Val::C(line)) = (f, l, line) {
                            // the length may include a trailing NUL
                            let s = self.read_str(st, f as u64, l as u64)?;
                            return Ok(format!("{}:{}", s.trim_end_matches('\0'), line));
                        }
                        Err(Stop::Done)
                    })();
                    if let Ok(s) = r {
                        return s;
                    }
                }
            }
        }
        "?".into()
    }
    /// symbolic size -> upper bound (power of four) that is certainly enough
    fn size_bound(&mut self, st: &mut State, v: &Val) -> Rs<u64> {
        let e = match v {
            Val::C(k) => return Ok(*k as u64),
            Val::S(e) => *e,
            _ => return Err(Stop::Unsupported("size".into())),
        };
        if let Some(k) = st.fixed_e.get(&e) {
            return Ok(*k as u64);
        }
        let mut b = 16u64;
        loop {
            let k = self.ar.cst(b as u128, 64);
            let c = self.ar.bin(Op::Ult, k, e);
            let c = self.v(c);
            if self.feasible(st, &c)?.is_none() {
                return Ok(b);
            }
            if b >= 1 << 32 {
                let r = self.decide(st, &c)?;
                if r {
                    return Ok(1 << 40);
                }
                continue;
            }
            b *= 4;
        }
    }
    fn cmp_bytes(&mut self, a: &[Val], b: &[Val]) -> Val {
        // -1 / 0 / 1 as i32
        let mut r = Val::C(0);
        for i in (0..a.len()).rev() {
            let lt = self.bin(Op::Ult, 8, &a[i], &b[i]);
            let gt = self.bin(Op::Ult, 8, &b[i], &a[i]);
            let t = Ty::Int(32);
            let x = self.ite(&gt, &Val::C(1), &r, &t);
            r = self.ite(&lt, &Val::C(0xffff_ffff), &x, &t);
        }
        r
    }
    fn ovf(&mut self, base: &str, w: u32, a: &Val, b: &Val) -> Val {
        let signed = base.starts_with('s');
        let op = &base[1..4];
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                if signed {
                    let (x, y) = (sext(*x, w), sext(*y, w));
                    let r = match op {
                        "add" => x + y,
                        "sub" => x - y,
                        _ => x * y,
                    };
                    let t = r as u128 & mask(w);
                    return Val::A(Rc::new(vec![Val::C(t), Val::C((sext(t, w) != r) as u128)]));
                } else {
                    let (r, o) = match op {
                        "add" => (x + y, x + y > mask(w)),
                        "sub" => (x.wrapping_sub(*y), x < y),
                        _ => (x.wrapping_mul(*y), x.checked_mul(*y).map(|r| r > mask(w)).unwrap_or(true)),
                    };
                    return Val::A(Rc::new(vec![Val::C(r & mask(w)), Val::C(o as u128)]));
                }
            }
        }
        match (signed, op) {
            (false, "add") => {
                let r = self.bin(Op::Add, w, a, b);
                let o = self.bin(Op::Ult, w, &r, a);
                Val::A(Rc::new(vec![r, o]))
            }
            (false, "sub") => {
                let r = self.sub(w, a, b);
                let o = self.bin(Op::Ult, w, a, b);
                Val::A(Rc::new(vec![r, o]))
            }
            (false, _) => {
                let r = self.bin(Op::Mul, w, a, b);
                let o = if let Val::C(k) = b {
                    if *k == 0 {
                        Val::C(0)
                    } else {
                        self.bin(Op::Ult, w, &Val::C(mask(w) / *k), a)
                    }
                } else if let Val::C(k) = a {
                    if *k == 0 {
                        Val::C(0)
                    } else {
                        self.bin(Op::Ult, w, &Val::C(mask(w) / *k), b)
                    }
                } else {
                    let x = self.zext(a, w, 2 * w);
                    let y = self.zext(b, w, 2 * w);
                    let p = self.bin(Op::Mul, 2 * w, &x, &y);
                    let h = self.extract(&p, w, w);
                    let z = self.bin(Op::Eq, w, &h, &Val::C(0));
                    self.not1(&z)
                };
                Val::A(Rc::new(vec![r, o]))
            }
            (true, _) => {
                let w2 = if op == "mul" { 2 * w } else { w + 1 };
                let x = self.sext(a, w, w2);
                let y = self.sext(b, w, w2);
                let p = match op {
                    "add" => self.bin(Op::Add, w2, &x, &y),
                    "sub" => self.sub(w2, &x, &y),
                    _ => self.bin(Op::Mul, w2, &x, &y),
                };
                let r = self.extract(&p, 0, w);
                let s = self.sext(&r, w, w2);
                let e = self.bin(Op::Eq, w2, &s, &p);
                let o = self.not1(&e);
                Val::A(Rc::new(vec![r, o]))
            }
        }
    }

    fn ctz(&mut self, a: &Val, w: u32, lead: bool) -> Val {
        match a {
            Val::C(k) => Val::C(if lead {
                (k.leading_zeros() - (128 - w)) as u128
            } else if *k == 0 {
                w as u128
            } else {
                k.trailing_zeros() as u128
            }),
            _ => {
                let mut r = Val::C(w as u128);
                let t = Ty::Int(w);
                for i in 0..w {
                    // the bit tested last wins
                    let pos = if lead { i } else { w - 1 - i };
                    let b = self.extract(a, pos, 1);
                    let v = if lead { w - 1 - pos } else { pos };
                    r = self.ite(&b, &Val::C(v as u128), &r, &t);
                }
                r
            }
        }
    }

    fn scalar_intrinsic(&mut self, st: &mut State, base: &str, t: &Ty, a: &[Val]) -> Rs<Val> {
        let w = match t {
            Ty::Void => 0,
            Ty::Struct(..) | Ty::Vec(..) | Ty::Arr(..) => 0,
            _ => t.bits(),
        };
        Ok(match base {
            "abs" => {
                let neg = self.bin(Op::Slt, w, &a[0], &Val::C(0));
                let m = self.sub(w, &Val::C(0), &a[0]);
                self.ite(&neg, &m, &a[0], t)
            }
            "umin" | "umax" | "smin" | "smax" => {
                let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                let lt = self.bin(op, w, &a[0], &a[1]);
                if base.ends_with("min") {
                    self.ite(&lt, &a[0], &a[1], t)
                } else {
                    self.ite(&lt, &a[1], &a[0], t)
                }
            }
            "uadd.sat" => {
                let r = self.bin(Op::Add, w, &a[0], &a[1]);
                let o = self.bin(Op::Ult, w, &r, &a[0]);
                self.ite(&o, &Val::C(mask(w)), &r, t)
            }
            "usub.sat" => {
                let r = self.sub(w, &a[0], &a[1]);
                let o = self.bin(Op::Ult, w, &a[0], &a[1]);
                self.ite(&o, &Val::C(0), &r, t)
            }
            "sadd.sat" | "ssub.sat" => {
                let x = self.sext(&a[0], w, w + 1);
                let y = self.sext(&a[1], w, w + 1);
                let p = if base == "sadd.sat" { self.bin(Op::Add, w + 1, &x, &y) } else { self.sub(w + 1, &x, &y) };
                let hi = Val::C(mask(w) >> 1);
                let lo = Val::C((!(mask(w) >> 1)) & mask(w + 1));
                let t1 = Ty::Int(w + 1);
                let c = self.bin(Op::Slt, w + 1, &hi, &p);
                let p = self.ite(&c, &hi, &p, &t1);
                let c = self.bin(Op::Slt, w + 1, &p, &lo);
                let p = self.ite(&c, &lo, &p, &t1);
                self.extract(&p, 0, w)
            }
            "bswap" => {
                let n = w / 8;
                match &a[0] {
                    Val::C(k) => {
                        let mut r = 0u128;
                        for i in 0..n {
                            r |= ((k >> (8 * i)) & 0xff) << (8 * (n - 1 - i));
                        }
                        Val::C(r)
                    }
                    _ => {
                        let mut acc = self.extract(&a[0], w - 8, 8);
                        for i in 1..n {
                            let b = self.extract(&a[0], w - 8 - 8 * i, 8);
                            let (x, y) = (self.e(&b, 8), self.e(&acc, 8 * i));
                            let c = self.ar.concat(x, y);
                            acc = self.v(c);
                        }
                        acc
                    }
                }
            }
            "bitreverse" => {
                let mut acc = self.extract(&a[0], w - 1, 1);
                for i in 1..w {
                    let b = self.extract(&a[0], w - 1 - i, 1);
                    let (x, y) = (self.e(&b, 1), self.e(&acc, i));
                    let c = self.ar.concat(x, y);
                    acc = self.v(c);
                }
                acc
            }
            "ctpop" => match &a[0] {
                Val::C(k) => Val::C(k.count_ones() as u128),
                _ => {
                    let mut r = Val::C(0);
                    for i in 0..w {
                        let b = self.extract(&a[0], i, 1);
                        let b = self.zext(&b, 1, w);
                        r = self.bin(Op::Add, w, &r, &b);
                    }
                    r
                }
            },
            "ctlz" => self.ctz(&a[0], w, true),
            "cttz" => self.ctz(&a[0], w, false),
            "fshl" | "fshr" => {
                let s = self.bin(Op::URem, w, &a[2], &Val::C(w as u128));
                let k = match &s {
                    Val::C(k) => *k,
                    _ => {
                        let x = self.concretise(st, &s, w)?;
                        x
                    }
                } as u32;
                if k == 0 {
                    if base == "fshl" {
                        a[0].clone()
                    } else {
                        a[1].clone()
                    }
                } else {
                    let (l, r) = if base == "fshl" { (k, w - k) } else { (w - k, k) };
                    let x = self.bin(Op::Shl, w, &a[0], &Val::C(l as u128));
                    let y = self.bin(Op::LShr, w, &a[1], &Val::C(r as u128));
                    self.bin(Op::Or, w, &x, &y)
                }
            }
            "fabs" => self.bin(Op::And, w, &a[0], &Val::C(mask(w) >> 1)),
            "copysign" => {
                let x = self.bin(Op::And, w, &a[0], &Val::C(mask(w) >> 1));
                let y = self.bin(Op::And, w, &a[1], &Val::C(1 << (w - 1)));
                self.bin(Op::Or, w, &x, &y)
            }
            "sqrt" => self.fun1(Op::FSqrt, w, w, &a[0], 0),
            "floor" => self.fun1(Op::FRnd, w, w, &a[0], 0),
            "ceil" => self.fun1(Op::FRnd, w, w, &a[0], 1),
            "trunc" => self.fun1(Op::FRnd, w, w, &a[0], 2),
            "round" => self.fun1(Op::FRnd, w, w, &a[0], 3),
            "rint" | "nearbyint" | "roundeven" => self.fun1(Op::FRnd, w, w, &a[0], 4),
            "minnum" | "minimumnum" => self.minmax(st, Op::FMin, w, &a[0], &a[1])?,
            "maxnum" | "maximumnum" => self.minmax(st, Op::FMax, w, &a[0], &a[1])?,
            "fmuladd" => {
                let m = self.bin(Op::FMul, w, &a[0], &a[1]);
                self.bin(Op::FAdd, w, &m, &a[2])
            }
            "fma" => {
                if a.iter().all(|x| matches!(x, Val::C(_))) {
                    let k: Vec<u128> = a.iter().map(|x| if let Val::C(k) = x { *k } else { 0 }).collect();
                    Val::C(eval_op(Op::FFma, w, w, k[0], k[1], k[2], 0))
                } else {
                    let (x, y, z) = (self.e(&a[0], w), self.e(&a[1], w), self.e(&a[2], w));
                    let r = self.ar.tri(Op::FFma, x, y, z);
                    self.v(r)
                }
            }
            _ => return Err(Stop::Unsupported(format!("intrinsic {}", base))),
        })
    }

    fn check_name(&mut self, st: &mut State, p: &Val, n: &Val) -> Rs<String> {
        let (p, n) = (self.arg_u64(st, p)?, self.arg_u64(st, n)?);
        self.read_str(st, p, n)
    }

    pub fn builtin(&mut self, st: &mut State, id: u32, b: Bi, ret: &Ty, a: &[Val], args: &[(Ty, Opd)]) -> Rs<Option<Val>> {
        match b {
            Bi::Nop => return Ok(None),
            Bi::Memcpy => {
                let n = self.arg_u64(st, &a[2])?;
                if n > 0 {
                    let d = self.pointer(st, &a[0], n)?;
                    let s = self.pointer(st, &a[1], n)?;
                    self.memcpy(st, d, s, n)?;
                }
                return Ok(None);
            }
            Bi::Memset => {
                if let (Val::S(_), Val::C(0)) = (&a[2], &a[1]) {
                    let b = self.size_bound(st, &a[2])?;
                    let d = self.pointer(st, &a[0], 0)?;
                    if self.memset_zero_sym(st, d, &a[2], b)? {
                        return Ok(None);
                    }
                }
                let n = self.arg_u64(st, &a[2])?;
                if n > 0 {
                    let d = self.pointer(st, &a[0], n)?;
                    self.memset(st, d, &a[1], n)?;
                }
                return Ok(None);
            }
            Bi::Panic => {
                let loc = self.loc_of(st, a);
                let n = crate::demangle(&self.fns[id as usize].name);
                let short = n.rsplit("::").next().unwrap_or("").to_string();
                return Err(Stop::Viol("panic".into(), format!("{} at {}", short, loc)));
            }
            Bi::Format => {
                // formatted text (error messages only): an empty String; nothing is printed
                if self.fns[id as usize].name.contains("5stdio6__print") {
                    return Ok(None);
                }
                let p = self.arg_u64(st, &a[0])?;
                for (o, k) in [(0u64, 0u128), (8, 1), (16, 0)] {
                    self.store(st, &Val::C((p + o) as u128), &Ty::Int(64), &Val::C(k))?;
                }
                return Ok(None);
            }
            Bi::Named => {}
        }
        let base = self.fns[id as usize].base.clone();
        let base: &str = &base;
        if base.starts_with("asm:") {
            if base.contains("cpuid") || base.contains("xgetbv") {
                return Ok(None);
            }
            // an empty template is an optimisation barrier
            if base.contains("asm \"\"") || base.contains("sideeffect \"\"") || base.contains(" \"\",") {
                return Ok(None);
            }
            // a comment as template, with the result tied to the first operand: the operand itself
            if base.contains("\"/*") && base.contains("*/\", \"=&r,0,") {
                return Ok(Some(a[0].clone()));
            }
            return Err(Stop::Unsupported(base.to_string()));
        }
        // overflow intrinsics return {T, i1}
        if base.ends_with(".with.overflow") {
            let w = args[0].0.bits();
            return Ok(Some(self.ovf(base, w, &a[0], &a[1])));
        }
        let is_llvm = self.fns[id as usize].name.starts_with("llvm.");
        if is_llvm {
            match base {
                "trap" | "debugtrap" | "ubsantrap" => return Err(Stop::Viol("abort".into(), "trap".into())),
                "is.constant" => return Ok(Some(Val::C(0))),
                "expect" | "launder.invariant.group" | "strip.invariant.group" | "threadlocal.address" | "ssa.copy" | "ptrmask_" => return Ok(Some(a[0].clone())),
                "ptrmask" => return Ok(Some(self.bin(Op::And, 64, &a[0], &a[1]))),
                "objectsize" => return Ok(Some(Val::C(mask(64)))),
                "stacksave" => return Ok(Some(Val::C(0))),
                "stackrestore" => return Ok(None),
                "fptoui.sat" | "fptosi.sat" => {
                    let op = if base == "fptoui.sat" { Op::FToU } else { Op::FToS };
                    if let Some((n, et)) = lanes(ret) {
                        let it = match &args[0].0 {
                            Ty::Vec(_, e) => e.bits(),
                            _ => 32,
                        };
                        let x = agg(&a[0]).clone();
                        return Ok(Some(Val::A(Rc::new((0..n).map(|i| self.fun1(op, it, et.bits(), &x[i], 0)).collect()))));
                    }
                    return Ok(Some(self.fun1(op, args[0].0.bits(), ret.bits(), &a[0], 0)));
                }
                "ucmp" | "scmp" if lanes(ret).is_none() => {
                    let w = args[0].0.bits();
                    let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                    let lt = self.bin(op, w, &a[0], &a[1]);
                    let gt = self.bin(op, w, &a[1], &a[0]);
                    let r = self.ite(&gt, &Val::C(1), &Val::C(0), ret);
                    return Ok(Some(self.ite(&lt, &Val::C(mask(ret.bits())), &r, ret)));
                }
                "is.fpclass" => {
                    let t = &args[0].0;
                    if matches!(t, Ty::Vec(..)) {
                        return Err(Stop::Unsupported("vector is.fpclass".into()));
                    }
                    let w = t.bits();
                    let (eb, mb) = if w == 32 { (8, 23) } else { (11, 52) };
                    let k = match &a[1] {
                        Val::C(k) => *k as u32,
                        _ => return Err(Stop::Unsupported("is.fpclass".into())),
                    };
                    let sign = self.extract(&a[0], w - 1, 1);
                    let ex = self.extract(&a[0], mb, eb);
                    let ma = self.extract(&a[0], 0, mb);
                    let e_all = self.bin(Op::Eq, eb, &ex, &Val::C(mask(eb)));
                    let e_zero = self.bin(Op::Eq, eb, &ex, &Val::C(0));
                    let m_zero = self.bin(Op::Eq, mb, &ma, &Val::C(0));
                    let m_nz = self.not1(&m_zero);
                    let quiet = self.extract(&a[0], mb - 1, 1);
                    let nquiet = self.not1(&quiet);
                    let pos = self.not1(&sign);
                    let ne_all = self.not1(&e_all);
                    let ne_zero = self.not1(&e_zero);
                    let and = |s: &mut Exec, x: &Val, y: &Val| s.bin(Op::And, 1, x, y);
                    let nan = and(self, &e_all, &m_nz);
                    let snan = and(self, &nan, &nquiet);
                    let qnan = and(self, &nan, &quiet);
                    let inf = and(self, &e_all, &m_zero);
                    let nor = and(self, &ne_all, &ne_zero);
                    let sub = and(self, &e_zero, &m_nz);
                    let zer = and(self, &e_zero, &m_zero);
                    let mut r = Val::C(0);
                    let table = [(0, &snan, None), (1, &qnan, None), (2, &inf, Some(&sign)), (3, &nor, Some(&sign)), (4, &sub, Some(&sign)), (5, &zer, Some(&sign)), (6, &zer, Some(&pos)), (7, &sub, Some(&pos)), (8, &nor, Some(&pos)), (9, &inf, Some(&pos))];
                    for (bit, c, s) in table {
                        if k >> bit & 1 == 1 {
                            let x = match s {
                                Some(s) => self.bin(Op::And, 1, c, s),
                                None => c.clone(),
                            };
                            r = self.bin(Op::Or, 1, &r, &x);
                        }
                    }
                    return Ok(Some(r));
                }
                "x86.sse.max.ps" | "x86.sse.min.ps" => {
                    let (x, y) = (agg(&a[0]).clone(), agg(&a[1]).clone());
                    let mut r = vec![];
                    for i in 0..x.len() {
                        // max: a > b ? a : b ; min: a < b ? a : b
                        let c = if base.contains("max") { self.bin(Op::FLt, 32, &y[i], &x[i]) } else { self.bin(Op::FLt, 32, &x[i], &y[i]) };
                        r.push(self.ite(&c, &x[i], &y[i], &Ty::F32));
                    }
                    return Ok(Some(Val::A(Rc::new(r))));
                }
                "x86.sse2.pmovmskb.128" | "x86.sse.movmsk.ps" | "x86.sse2.movmsk.pd" => {
                    let (_, et) = lanes(&args[0].0).unwrap();
                    let w = et.bits();
                    let x = agg(&a[0]).clone();
                    let mut r = Val::C(0);
                    for (i, l) in x.iter().enumerate() {
                        let b = self.extract(l, w - 1, 1);
                        let b = self.zext(&b, 1, 32);
                        let b = self.bin(Op::Shl, 32, &b, &Val::C(i as u128));
                        r = self.bin(Op::Or, 32, &r, &b);
                    }
                    return Ok(Some(r));
                }
                _ => {}
            }
            if let Some(r) = base.strip_prefix("vector.reduce.") {
                let (_, et) = lanes(&args.last().unwrap().0).ok_or_else(|| Stop::Unsupported("reduce".into()))?;
                let w = et.bits();
                let x = agg(a.last().unwrap()).clone();
                let mut acc = x[0].clone();
                for y in &x[1..] {
                    acc = match r {
                        "add" => self.bin(Op::Add, w, &acc, y),
                        "mul" => self.bin(Op::Mul, w, &acc, y),
                        "and" => self.bin(Op::And, w, &acc, y),
                        "or" => self.bin(Op::Or, w, &acc, y),
                        "xor" => self.bin(Op::Xor, w, &acc, y),
                        _ => self.scalar_intrinsic(st, r, &et, &[acc.clone(), y.clone()])?,
                    };
                }
                return Ok(Some(acc));
            }
            if base == "is.fpclass" && lanes(ret).is_none() {
                let w = args[0].0.bits();
                let Val::C(tests) = a[1] else { return Err(Stop::Unsupported("is.fpclass".into())) };
                let mb = if w == 32 { 23 } else { 52 };
                let mag = self.bin(Op::And, w, &a[0], &Val::C(mask(w - 1)));
                let neg = self.extract(&a[0], w - 1, 1);
                let pos = self.not1(&neg);
                let inf = Val::C(mask(w - 1) & !mask(mb));
                let is_inf = self.bin(Op::Eq, w, &mag, &inf);
                let nan = self.bin(Op::Ult, w, &inf, &mag);
                let quiet = self.extract(&a[0], mb - 1, 1);
                let loud = self.not1(&quiet);
                let zero = self.bin(Op::Eq, w, &mag, &Val::C(0));
                let nz = self.not1(&zero);
                let low = self.bin(Op::Ult, w, &mag, &Val::C(1 << mb));
                let sub = self.bin(Op::And, 1, &low, &nz);
                let fin = self.bin(Op::Ult, w, &mag, &inf);
                let high = self.not1(&low);
                let norm = self.bin(Op::And, 1, &fin, &high);
                let one = Val::C(1);
                let classes = [(&nan, &loud), (&nan, &quiet), (&is_inf, &neg), (&norm, &neg), (&sub, &neg), (&zero, &neg), (&zero, &pos), (&sub, &pos), (&norm, &pos), (&is_inf, &pos)];
                let mut r = Val::C(0);
                for (i, (c, s)) in classes.iter().enumerate() {
                    if tests >> i & 1 != 0 {
                        let x = self.bin(Op::And, 1, c, s);
                        let x = self.bin(Op::And, 1, &x, &one);
                        r = self.bin(Op::Or, 1, &r, &x);
                    }
                }
                return Ok(Some(r));
            }
            if let Some((n, et)) = lanes(ret) {
                let mut r = vec![];
                for i in 0..n {
                    let l: Vec<Val> = a
                        .iter()
                        .map(|x| match x {
                            Val::A(v) => v[i].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    r.push(self.scalar_intrinsic(st, base, &et, &l)?);
                }
                return Ok(Some(Val::A(Rc::new(r))));
            }
            return Ok(Some(self.scalar_intrinsic(st, base, ret, a)?));
        }
        match base {
            "malloc" => {
                let n = self.size_bound(st, &a[0])?;
                Ok(Some(Val::C(self.alloc(st, n, 0)? as u128)))
            }
            "aligned_alloc" => {
                let n = self.size_bound(st, &a[1])?;
                Ok(Some(Val::C(self.alloc(st, n, 0)? as u128)))
            }
            "calloc" => {
                let p = self.bin(Op::Mul, 64, &a[0], &a[1]);
                let n = self.size_bound(st, &p)?;
                Ok(Some(Val::C(self.alloc(st, n, 0)? as u128)))
            }
            "posix_memalign" => {
                let n = self.size_bound(st, &a[2])?;
                let p = self.pointer(st, &a[0], 8)?;
                let r = self.alloc(st, n, 0)?;
                self.store(st, &Val::C(p as u128), &Ty::Ptr, &Val::C(r as u128))?;
                Ok(Some(Val::C(0)))
            }
            "realloc" => {
                let n = self.size_bound(st, &a[1])?;
                let old = self.pointer(st, &a[0], 0)?;
                if old == 0 {
                    return Ok(Some(Val::C(self.alloc(st, n, 0)? as u128)));
                }
                let os = self.obj_size(st, old)?;
                let r = self.alloc(st, n, 0)?;
                let k = os.min(n);
                // lazily sized objects copy only their materialised part
                self.copy_obj(st, r, old, k)?;
                self.free_obj(st, old)?;
                Ok(Some(Val::C(r as u128)))
            }
            "free" => {
                let p = self.pointer(st, &a[0], 0)?;
                self.free_obj(st, p)?;
                Ok(None)
            }
            "memcpy" | "memmove" => {
                let n = self.arg_u64(st, &a[2])?;
                if n > 0 {
                    let d = self.pointer(st, &a[0], n)?;
                    let s = self.pointer(st, &a[1], n)?;
                    self.memcpy(st, d, s, n)?;
                }
                Ok(Some(a[0].clone()))
            }
            "memset" => {
                let n = self.arg_u64(st, &a[2])?;
                if n > 0 {
                    let d = self.pointer(st, &a[0], n)?;
                    let v = self.extract(&a[1], 0, 8);
                    self.memset(st, d, &v, n)?;
                }
                Ok(Some(a[0].clone()))
            }
            "bcmp" | "memcmp" => {
                let n = self.arg_u64(st, &a[2])?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let p = self.pointer(st, &a[0], n)?;
                let q = self.pointer(st, &a[1], n)?;
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                if base == "memcmp" {
                    return Ok(Some(self.cmp_bytes(&x, &y)));
                }
                let mut acc = Val::C(1);
                for i in 0..x.len() {
                    let e = self.bin(Op::Eq, 8, &x[i], &y[i]);
                    acc = self.bin(Op::And, 1, &acc, &e);
                    if matches!(acc, Val::C(0)) {
                        break;
                    }
                }
                let ne = self.not1(&acc);
                Ok(Some(self.zext(&ne, 1, 32)))
            }
            "strlen" => {
                let p = self.pointer(st, &a[0], 1)?;
                let mut i = 0;
                loop {
                    let b = self.load(st, &Val::C((p + i) as u128), &Ty::Int(8))?;
                    let z = self.bin(Op::Eq, 8, &b, &Val::C(0));
                    if self.decide(st, &z)? {
                        return Ok(Some(Val::C(i as u128)));
                    }
                    i += 1;
                }
            }
            "abort" => Err(Stop::Viol("abort".into(), "abort".into())),
            "write" | "writev" => Ok(Some(a.last().unwrap().clone())),
            "getenv" => Ok(Some(Val::C(0))),
            "dlsym" => {
                let p = self.pointer(st, &a[1], 1)?;
                let mut name = String::new();
                while let Val::C(c) = self.load(st, &Val::C((p + name.len() as u64) as u128), &Ty::Int(8))? {
                    if c == 0 {
                        break;
                    }
                    name.push(c as u8 as char);
                }
                Ok(Some(Val::C(if name == "getrandom" { self.sym_addr("getrandom") as u128 } else { 0 })))
            }
            "getrandom" => Ok(Some(a[1].clone())),
            "syscall" => Ok(Some(a.get(2).cloned().unwrap_or(Val::C(0)))),
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" => Ok(Some(Val::C(0))),
            "pthread_self" => Ok(Some(Val::C(1))),
            "__errno_location" => Ok(Some(Val::C(self.alloc(st, 8, 0)? as u128))),
            "roundf" | "round" => Ok(Some(self.scalar_intrinsic(st, "round", ret, a)?)),
            "floorf" => Ok(Some(self.scalar_intrinsic(st, "floor", ret, a)?)),
            "ceilf" => Ok(Some(self.scalar_intrinsic(st, "ceil", ret, a)?)),
            "truncf" => Ok(Some(self.scalar_intrinsic(st, "trunc", ret, a)?)),
            "sqrtf" | "sqrt" => Ok(Some(self.scalar_intrinsic(st, "sqrt", ret, a)?)),
            "sinf" | "cosf" | "acosf" | "asinf" | "tanf" | "atan2f" | "powf" => {
                let k: Vec<f32> = a
                    .iter()
                    .map(|x| match x {
                        Val::C(k) => Some(f32::from_bits(*k as u32)),
                        _ => None,
                    })
                    .collect::<Option<Vec<f32>>>()
                    .ok_or_else(|| Stop::Unsupported(format!("symbolic {}", base)))?;
                let r = unsafe {
                    match base {
                        "sinf" => sinf(k[0]),
                        "cosf" => cosf(k[0]),
                        "acosf" => acosf(k[0]),
                        "asinf" => asinf(k[0]),
                        "tanf" => tanf(k[0]),
                        "atan2f" => atan2f(k[0], k[1]),
                        _ => powf(k[0], k[1]),
                    }
                };
                Ok(Some(Val::C(r.to_bits() as u128)))
            }
            // ---- harness interface ----
            "vp_sym" => {
                let n = self.arg_u64(st, &a[1])?;
                let p = self.pointer(st, &a[0], n)?;
                for i in 0..n {
                    let e = self.ar.var(st.nvars);
                    st.nvars += 1;
                    self.store(st, &Val::C((p + i) as u128), &Ty::Int(8), &Val::S(e))?;
                }
                Ok(None)
            }
            "vp_param" => {
                let i = self.arg_u64(st, &a[0])? as usize;
                Ok(Some(Val::C(self.params.get(i).copied().unwrap_or(0) as u128)))
            }
            "vp_stub_fmt" => {
                st.stub_fmt = !matches!(a[0], Val::C(0));
                Ok(None)
            }
            "vp_conc" => Ok(Some(Val::C(self.concretise(st, &a[0], 64)?))),
            "vp_assume" => {
                let c = self.nonzero(&a[0], args[0].0.bits());
                match self.feasible(st, &c)? {
                    None => Err(Stop::Infeasible),
                    Some(m) => {
                        st.model = m;
                        self.assume(st, &c);
                        Ok(None)
                    }
                }
            }
            "vp_check" => {
                let name = self.check_name(st, &a[1], &a[2])?;
                let c = self.nonzero(&a[0], args[0].0.bits());
                match &c {
                    Val::C(0) => {
                        self.checks.entry(name.clone()).or_default().violated += 1;
                        Err(Stop::Viol("check".into(), name))
                    }
                    Val::C(_) => {
                        self.checks.entry(name).or_default().folded += 1;
                        Ok(None)
                    }
                    _ => {
                        let n = self.not1(&c);
                        match self.feasible(st, &n)? {
                            None => {
                                self.checks.entry(name).or_default().proved += 1;
                                Ok(None)
                            }
                            Some(m) => {
                                self.checks.entry(name.clone()).or_default().violated += 1;
                                let old = st.model.clone();
                                st.model = m;
                                self.violation(st, "check", &name);
                                st.model = old;
                                match self.feasible(st, &c)? {
                                    None => Err(Stop::Infeasible),
                                    Some(m) => {
                                        st.model = m;
                                        self.assume(st, &c);
                                        Ok(None)
                                    }
                                }
                            }
                        }
                    }
                }
            }
            "vp_fail" => {
                let name = self.check_name(st, &a[0], &a[1])?;
                self.checks.entry(name.clone()).or_default().violated += 1;
                Err(Stop::Viol("check".into(), name))
            }
            "vp_reach" => {
                let name = self.check_name(st, &a[0], &a[1])?;
                *self.reached.entry(name.clone()).or_insert(0) += 1;
                let i = self.str_id(&name);
                st.reach.push(i);
                Ok(None)
            }
            "vp_log" => {
                st.log.push((a[0].clone(), 64));
                Ok(None)
            }
            _ => Err(Stop::Unsupported(format!("call of {}", base))),
        }
    }
    fn nonzero(&mut self, v: &Val, w: u32) -> Val {
        let z = self.bin(Op::Eq, w, v, &Val::C(0));
        self.not1(&z)
    }
    pub fn assume(&mut self, st: &mut State, c: &Val) {
        if let Val::S(e) = c {
            self.add_cons_pub(st, *e);
        }
    }
}
