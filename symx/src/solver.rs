//! Z3 through its C API (loaded with dlopen), with constraint slicing and model reuse.
use crate::expr::*;
use std::collections::VecDeque;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

pub type P = *mut c_void;
extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! z3api {
    ($($name:ident ( $($t:ty),* ) $(-> $r:ty)? ;)*) => {
        #[allow(non_snake_case)]
        pub struct Z3 { $( pub $name: unsafe extern "C" fn($($t),*) $(-> $r)?, )* pub version: String }
        impl Z3 {
            pub fn load(path: &str) -> Option<Z3> {
                unsafe {
                    let p = CString::new(path).unwrap();
                    let h = dlopen(p.as_ptr(), 2);
                    if h.is_null() { return None; }
                    let z = Z3 { $( $name: { let s = CString::new(stringify!($name)).unwrap(); let f = dlsym(h, s.as_ptr()); if f.is_null() { return None; } std::mem::transmute(f) }, )* version: String::new() };
                    let v = CStr::from_ptr((z.Z3_get_full_version)()).to_string_lossy().to_string();
                    Some(Z3 { version: v, ..z })
                }
            }
        }
    };
}
z3api! {
    Z3_get_full_version() -> *const c_char;
    Z3_mk_config() -> P;
    Z3_mk_context_rc(P) -> P;
    Z3_inc_ref(P, P);
    Z3_dec_ref(P, P);
    Z3_set_error_handler(P, P);
    Z3_get_error_code(P) -> c_int;
    Z3_mk_bv_sort(P, c_uint) -> P;
    Z3_mk_int_symbol(P, c_int) -> P;
    Z3_mk_string_symbol(P, *const c_char) -> P;
    Z3_mk_const(P, P, P) -> P;
    Z3_mk_numeral(P, *const c_char, P) -> P;
    Z3_mk_unsigned_int64(P, u64, P) -> P;
    Z3_mk_true(P) -> P;
    Z3_mk_false(P) -> P;
    Z3_mk_not(P, P) -> P;
    Z3_mk_and(P, c_uint, *const P) -> P;
    Z3_mk_or(P, c_uint, *const P) -> P;
    Z3_mk_xor(P, P, P) -> P;
    Z3_mk_eq(P, P, P) -> P;
    Z3_mk_ite(P, P, P, P) -> P;
    Z3_mk_real_sort(P) -> P;
    Z3_mk_bool_sort(P) -> P;
    Z3_mk_fresh_const(P, *const c_char, P) -> P;
    Z3_mk_add(P, c_uint, *const P) -> P;
    Z3_mk_sub(P, c_uint, *const P) -> P;
    Z3_mk_mul(P, c_uint, *const P) -> P;
    Z3_mk_le(P, P, P) -> P;
    Z3_mk_lt(P, P, P) -> P;
    Z3_get_numeral_decimal_string(P, P, c_uint) -> *const c_char;
    Z3_mk_bvadd(P, P, P) -> P;
    Z3_mk_bvsub(P, P, P) -> P;
    Z3_mk_bvneg(P, P) -> P;
    Z3_mk_bvmul(P, P, P) -> P;
    Z3_mk_bvudiv(P, P, P) -> P;
    Z3_mk_bvsdiv(P, P, P) -> P;
    Z3_mk_bvurem(P, P, P) -> P;
    Z3_mk_bvsrem(P, P, P) -> P;
    Z3_mk_bvand(P, P, P) -> P;
    Z3_mk_bvor(P, P, P) -> P;
    Z3_mk_bvxor(P, P, P) -> P;
    Z3_mk_bvshl(P, P, P) -> P;
    Z3_mk_bvlshr(P, P, P) -> P;
    Z3_mk_bvashr(P, P, P) -> P;
    Z3_mk_concat(P, P, P) -> P;
    Z3_mk_extract(P, c_uint, c_uint, P) -> P;
    Z3_mk_sign_ext(P, c_uint, P) -> P;
    Z3_mk_bvult(P, P, P) -> P;
    Z3_mk_bvslt(P, P, P) -> P;
    Z3_mk_fpa_sort_32(P) -> P;
    Z3_mk_fpa_sort_64(P) -> P;
    Z3_mk_fpa_to_fp_bv(P, P, P) -> P;
    Z3_mk_fpa_to_ieee_bv(P, P) -> P;
    Z3_mk_fpa_rne(P) -> P;
    Z3_mk_fpa_rna(P) -> P;
    Z3_mk_fpa_rtp(P) -> P;
    Z3_mk_fpa_rtn(P) -> P;
    Z3_mk_fpa_rtz(P) -> P;
    Z3_mk_fpa_add(P, P, P, P) -> P;
    Z3_mk_fpa_sub(P, P, P, P) -> P;
    Z3_mk_fpa_mul(P, P, P, P) -> P;
    Z3_mk_fpa_div(P, P, P, P) -> P;
    Z3_mk_fpa_fma(P, P, P, P, P) -> P;
    Z3_mk_fpa_sqrt(P, P, P) -> P;
    Z3_mk_fpa_rem(P, P, P) -> P;
    Z3_mk_fpa_round_to_integral(P, P, P) -> P;
    Z3_mk_fpa_eq(P, P, P) -> P;
    Z3_mk_fpa_lt(P, P, P) -> P;
    Z3_mk_fpa_leq(P, P, P) -> P;
    Z3_mk_fpa_is_nan(P, P) -> P;
    Z3_mk_fpa_is_negative(P, P) -> P;
    Z3_mk_fpa_to_fp_float(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned(P, P, P, P) -> P;
    Z3_mk_fpa_to_ubv(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_sbv(P, P, P, c_uint) -> P;
    Z3_mk_fpa_numeral_double(P, f64, P) -> P;
    Z3_mk_solver_for_logic(P, P) -> P;
    Z3_solver_inc_ref(P, P);
    Z3_solver_push(P, P);
    Z3_solver_pop(P, P, c_uint);
    Z3_solver_assert(P, P, P);
    Z3_solver_check(P, P) -> c_int;
    Z3_solver_get_model(P, P) -> P;
    Z3_solver_to_string(P, P) -> *const c_char;
    Z3_solver_set_params(P, P, P);
    Z3_mk_params(P) -> P;
    Z3_params_inc_ref(P, P);
    Z3_params_set_uint(P, P, P, c_uint);
    Z3_model_inc_ref(P, P);
    Z3_model_dec_ref(P, P);
    Z3_model_eval(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_uint64(P, P, *mut u64) -> bool;
}

unsafe extern "C" fn on_err(_c: P, _e: c_int) {}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Rc<Vec<u8>>),
    Unsat,
    Unknown,
}

struct Ctx {
    z: Z3,
    ctx: P,
    sbv: P,
    sfp: P,
    slra: P,
    asts: Vec<P>, // bv translation per expr
    bools: Vec<P>,
    fps: FxMap<E, P>,
}

pub struct Solver {
    cx: Ctx,
    pub second: Option<Box<Solver>>,
    cache: FxMap<Vec<E>, Res>,
    recent: VecDeque<Rc<Vec<u8>>>,
    pub timeout_ms: u32,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time_us: u64,
    pub max_us: u64,
    pub fp_queries: u64,
    pub relaxed: u64,
    pub cross_checked: u64,
    pub disagreements: u64,
    pub dump: Option<String>,
}

impl Ctx {
    fn new(z: Z3, timeout: u32) -> Ctx {
        unsafe {
            let cfg = (z.Z3_mk_config)();
            let ctx = (z.Z3_mk_context_rc)(cfg);
            (z.Z3_set_error_handler)(ctx, on_err as *mut c_void);
            let mk = |l: &str| {
                let s = CString::new(l).unwrap();
                let sv = (z.Z3_mk_solver_for_logic)(ctx, (z.Z3_mk_string_symbol)(ctx, s.as_ptr()));
                (z.Z3_solver_inc_ref)(ctx, sv);
                let p = (z.Z3_mk_params)(ctx);
                (z.Z3_params_inc_ref)(ctx, p);
                let t = CString::new("timeout").unwrap();
                (z.Z3_params_set_uint)(ctx, p, (z.Z3_mk_string_symbol)(ctx, t.as_ptr()), timeout);
                (z.Z3_solver_set_params)(ctx, sv, p);
                sv
            };
            let sbv = mk("QF_BV");
            let sfp = mk("QF_FPBV");
            let slra = mk("QF_LRA");
            Ctx { z, ctx, sbv, sfp, slra, asts: Vec::new(), bools: Vec::new(), fps: FxMap::default() }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { (self.z.Z3_inc_ref)(self.ctx, a) };
        a
    }
    fn is_bool_op(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe | Op::FNan)
    }
    fn build(&mut self, ar: &Arena, e: E) {
        if self.asts.len() < ar.n.len() {
            self.asts.resize(ar.n.len(), std::ptr::null_mut());
            self.bools.resize(ar.n.len(), std::ptr::null_mut());
        }
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            let xi = x as usize;
            if !self.asts[xi].is_null() || !self.bools[xi].is_null() {
                continue;
            }
            let n = ar.node(x);
            if !done {
                st.push((x, true));
                let k = nkids(n.op);
                for (i, c) in [n.a, n.b, n.c].iter().enumerate() {
                    if i < k {
                        st.push((*c, false));
                    }
                }
                continue;
            }
            let boolean = n.w == 1 && (Self::is_bool_op(n.op) || matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Ite | Op::Const));
            if boolean {
                let r = self.mk_bool(ar, n);
                self.bools[xi] = self.keep(r);
            } else {
                let r = self.mk_bv(ar, x, n);
                self.asts[xi] = self.keep(r);
            }
        }
    }
    fn bv(&mut self, x: E) -> P {
        let i = x as usize;
        if self.asts[i].is_null() {
            unsafe {
                let one = self.keepnum(1, 1);
                let zero = self.keepnum(0, 1);
                let r = (self.z.Z3_mk_ite)(self.ctx, self.bools[i], one, zero);
                self.asts[i] = self.keep(r);
            }
        }
        self.asts[i]
    }
    fn boolean(&mut self, x: E) -> P {
        let i = x as usize;
        if self.bools[i].is_null() {
            unsafe {
                let one = self.keepnum(1, 1);
                let r = (self.z.Z3_mk_eq)(self.ctx, self.asts[i], one);
                self.bools[i] = self.keep(r);
            }
        }
        self.bools[i]
    }
    fn fsort(&self, w: u32) -> P {
        unsafe {
            let s = if w == 32 { (self.z.Z3_mk_fpa_sort_32)(self.ctx) } else { (self.z.Z3_mk_fpa_sort_64)(self.ctx) };
            self.keep(s)
        }
    }
    /// floating point term of a node (results of operations keep theirs)
    fn fp(&mut self, ar: &Arena, x: E) -> P {
        if let Some(p) = self.fps.get(&x) {
            return *p;
        }
        let w = ar.w(x);
        let b = self.bv(x);
        let s = self.fsort(w);
        let p = unsafe { (self.z.Z3_mk_fpa_to_fp_bv)(self.ctx, b, s) };
        let p = self.keep(p);
        self.fps.insert(x, p);
        p
    }
    fn mk_bool(&mut self, ar: &Arena, n: Node) -> P {
        let c = self.ctx;
        unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        (self.z.Z3_mk_true)(c)
                    } else {
                        (self.z.Z3_mk_false)(c)
                    }
                }
                Op::And | Op::Or => {
                    let v = [self.boolean(n.a), self.boolean(n.b)];
                    if n.op == Op::And {
                        (self.z.Z3_mk_and)(c, 2, v.as_ptr())
                    } else {
                        (self.z.Z3_mk_or)(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    if ar.as_const(n.b) == Some(1) {
                        let a = self.boolean(n.a);
                        (self.z.Z3_mk_not)(c, a)
                    } else {
                        let (a, b) = (self.boolean(n.a), self.boolean(n.b));
                        (self.z.Z3_mk_xor)(c, a, b)
                    }
                }
                Op::Ite => {
                    let (i, a, b) = (self.boolean(n.a), self.boolean(n.b), self.boolean(n.c));
                    (self.z.Z3_mk_ite)(c, i, a, b)
                }
                Op::Eq => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    (self.z.Z3_mk_eq)(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    (self.z.Z3_mk_bvult)(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    (self.z.Z3_mk_bvslt)(c, a, b)
                }
                Op::FEq | Op::FLt | Op::FLe | Op::FNan if !ar.has_fp[n.a as usize] && (n.op == Op::FNan || !ar.has_fp[n.b as usize]) => {
                    let (na, za, ka) = self.ord(ar, n.a);
                    if n.op == Op::FNan {
                        return na;
                    }
                    let (nb, zb, kb) = self.ord(ar, n.b);
                    let nan = self.keep((self.z.Z3_mk_or)(c, 2, [na, nb].as_ptr()));
                    let ok = self.keep((self.z.Z3_mk_not)(c, nan));
                    let zz = self.keep((self.z.Z3_mk_and)(c, 2, [za, zb].as_ptr()));
                    let lt = self.keep((self.z.Z3_mk_bvult)(c, ka, kb));
                    let eq = self.keep((self.z.Z3_mk_eq)(c, ka, kb));
                    let eqz = self.keep((self.z.Z3_mk_or)(c, 2, [eq, zz].as_ptr()));
                    let nzz = self.keep((self.z.Z3_mk_not)(c, zz));
                    let r = match n.op {
                        Op::FEq => eqz,
                        Op::FLt => self.keep((self.z.Z3_mk_and)(c, 2, [lt, nzz].as_ptr())),
                        _ => self.keep((self.z.Z3_mk_or)(c, 2, [lt, eqz].as_ptr())),
                    };
                    (self.z.Z3_mk_and)(c, 2, [ok, r].as_ptr())
                }
                Op::FEq => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    (self.z.Z3_mk_fpa_eq)(c, a, b)
                }
                Op::FLt => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    (self.z.Z3_mk_fpa_lt)(c, a, b)
                }
                Op::FLe => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    (self.z.Z3_mk_fpa_leq)(c, a, b)
                }
                Op::FNan => {
                    let a = self.fp(ar, n.a);
                    (self.z.Z3_mk_fpa_is_nan)(c, a)
                }
                _ => unreachable!(),
            }
        }
    }
    /// of a float's bits: is NaN, is zero, key whose unsigned order is the numeric order (-0 < +0)
    fn ord(&mut self, ar: &Arena, x: E) -> (P, P, P) {
        let c = self.ctx;
        let w = ar.w(x);
        let mb = if w == 32 { 23 } else { 52 };
        let b = self.bv(x);
        unsafe {
            let sign_bit = self.keepnum(1u128 << (w - 1), w);
            let mag = self.keep((self.z.Z3_mk_bvand)(c, b, self.keepnum(mask(w - 1), w)));
            let inf = self.keepnum(mask(w - 1) & !mask(mb), w);
            let nan = self.keep((self.z.Z3_mk_bvult)(c, inf, mag));
            let zero = self.keep((self.z.Z3_mk_eq)(c, mag, self.keepnum(0, w)));
            let neg = self.keep((self.z.Z3_mk_bvult)(c, mag, b));
            let inv = self.keep((self.z.Z3_mk_bvxor)(c, b, self.keepnum(mask(w), w)));
            let pos = self.keep((self.z.Z3_mk_bvor)(c, b, sign_bit));
            (nan, zero, self.keep((self.z.Z3_mk_ite)(c, neg, inv, pos)))
        }
    }
    fn rne(&self) -> P {
        self.keep(unsafe { (self.z.Z3_mk_fpa_rne)(self.ctx) })
    }
    fn ieee(&mut self, x: E, r: P) -> P {
        self.keep(r);
        self.fps.insert(x, r);
        unsafe { (self.z.Z3_mk_fpa_to_ieee_bv)(self.ctx, r) }
    }
    fn keepnum(&self, k: u128, w: u32) -> P {
        self.keep(self.num(k, w))
    }
    fn num(&self, k: u128, w: u32) -> P {
        unsafe {
            let s = (self.z.Z3_mk_bv_sort)(self.ctx, w);
            if k <= u64::MAX as u128 {
                (self.z.Z3_mk_unsigned_int64)(self.ctx, k as u64, s)
            } else {
                let t = CString::new(k.to_string()).unwrap();
                (self.z.Z3_mk_numeral)(self.ctx, t.as_ptr(), s)
            }
        }
    }
    fn mk_bv(&mut self, ar: &Arena, x: E, n: Node) -> P {
        let c = self.ctx;
        let w = n.w as u32;
        unsafe {
            match n.op {
                Op::Const => self.num(n.k, w),
                Op::Var => {
                    let s = self.keep((self.z.Z3_mk_bv_sort)(c, 8));
                    let sy = (self.z.Z3_mk_int_symbol)(c, n.k as c_int);
                    (self.z.Z3_mk_const)(c, sy, s)
                }
                Op::Add => {
                    // a + (-1)*b  =>  a - b
                    let nb = ar.node(n.b);
                    let na = ar.node(n.a);
                    if nb.op == Op::Mul && ar.as_const(nb.b) == Some(mask(w)) {
                        let (a, b) = (self.bv(n.a), self.bv(nb.a));
                        (self.z.Z3_mk_bvsub)(c, a, b)
                    } else if na.op == Op::Mul && ar.as_const(na.b) == Some(mask(w)) {
                        let (a, b) = (self.bv(n.b), self.bv(na.a));
                        (self.z.Z3_mk_bvsub)(c, a, b)
                    } else {
                        let (a, b) = (self.bv(n.a), self.bv(n.b));
                        (self.z.Z3_mk_bvadd)(c, a, b)
                    }
                }
                Op::Mul => {
                    let a = self.bv(n.a);
                    if ar.as_const(n.b) == Some(mask(w)) {
                        (self.z.Z3_mk_bvneg)(c, a)
                    } else {
                        let b = self.bv(n.b);
                        (self.z.Z3_mk_bvmul)(c, a, b)
                    }
                }
                Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr | Op::Concat => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    let f = match n.op {
                        Op::UDiv => self.z.Z3_mk_bvudiv,
                        Op::SDiv => self.z.Z3_mk_bvsdiv,
                        Op::URem => self.z.Z3_mk_bvurem,
                        Op::SRem => self.z.Z3_mk_bvsrem,
                        Op::And => self.z.Z3_mk_bvand,
                        Op::Or => self.z.Z3_mk_bvor,
                        Op::Xor => self.z.Z3_mk_bvxor,
                        Op::Shl => self.z.Z3_mk_bvshl,
                        Op::LShr => self.z.Z3_mk_bvlshr,
                        Op::AShr => self.z.Z3_mk_bvashr,
                        _ => self.z.Z3_mk_concat,
                    };
                    f(c, a, b)
                }
                Op::Extract => {
                    let a = self.bv(n.a);
                    (self.z.Z3_mk_extract)(c, n.k as u32 + w - 1, n.k as u32, a)
                }
                Op::SExt => {
                    let a = self.bv(n.a);
                    (self.z.Z3_mk_sign_ext)(c, w - ar.w(n.a), a)
                }
                Op::Ite => {
                    let (i, a, b) = (self.boolean(n.a), self.bv(n.b), self.bv(n.c));
                    (self.z.Z3_mk_ite)(c, i, a, b)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    let rm = self.keep((self.z.Z3_mk_fpa_rne)(c));
                    let f = match n.op {
                        Op::FAdd => self.z.Z3_mk_fpa_add,
                        Op::FSub => self.z.Z3_mk_fpa_sub,
                        Op::FMul => self.z.Z3_mk_fpa_mul,
                        _ => self.z.Z3_mk_fpa_div,
                    };
                    let r = f(c, rm, a, b);
                    self.ieee(x, r)
                }
                Op::FRem => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    let r = (self.z.Z3_mk_fpa_rem)(c, a, b);
                    self.ieee(x, r)
                }
                Op::FFma => {
                    let (a, b, d) = (self.fp(ar, n.a), self.fp(ar, n.b), self.fp(ar, n.c));
                    let r = (self.z.Z3_mk_fpa_fma)(c, self.rne(), a, b, d);
                    self.ieee(x, r)
                }
                Op::FSqrt => {
                    let a = self.fp(ar, n.a);
                    let r = (self.z.Z3_mk_fpa_sqrt)(c, self.rne(), a);
                    self.ieee(x, r)
                }
                Op::FRnd => {
                    let a = self.fp(ar, n.a);
                    let rm = match n.k {
                        0 => (self.z.Z3_mk_fpa_rtn)(c),
                        1 => (self.z.Z3_mk_fpa_rtp)(c),
                        2 => (self.z.Z3_mk_fpa_rtz)(c),
                        3 => (self.z.Z3_mk_fpa_rna)(c),
                        _ => (self.z.Z3_mk_fpa_rne)(c),
                    };
                    let rm = self.keep(rm);
                    let r = (self.z.Z3_mk_fpa_round_to_integral)(c, rm, a);
                    self.ieee(x, r)
                }
                Op::FCvt => {
                    let a = self.fp(ar, n.a);
                    let s = self.fsort(w);
                    let r = (self.z.Z3_mk_fpa_to_fp_float)(c, self.rne(), a, s);
                    self.ieee(x, r)
                }
                Op::UToF | Op::SToF => {
                    let a = self.bv(n.a);
                    let s = self.fsort(w);
                    let rm = self.keep((self.z.Z3_mk_fpa_rne)(c));
                    let r = if n.op == Op::UToF { (self.z.Z3_mk_fpa_to_fp_unsigned)(c, rm, a, s) } else { (self.z.Z3_mk_fpa_to_fp_signed)(c, rm, a, s) };
                    self.ieee(x, r)
                }
                Op::FToU | Op::FToS => {
                    let a = self.fp(ar, n.a);
                    let s = self.fsort(ar.w(n.a));
                    let rtz = self.keep((self.z.Z3_mk_fpa_rtz)(c));
                    let signed = n.op == Op::FToS;
                    let (lo, hi, lok, hik) = if signed {
                        let h = (2f64).powi(w as i32 - 1);
                        (-h, h, 1u128 << (w - 1), mask(w) >> 1)
                    } else {
                        (0.0, (2f64).powi(w as i32), 0, mask(w))
                    };
                    let lof = self.keep((self.z.Z3_mk_fpa_numeral_double)(c, lo, s));
                    let hif = self.keep((self.z.Z3_mk_fpa_numeral_double)(c, hi, s));
                    let conv = self.keep(if signed { (self.z.Z3_mk_fpa_to_sbv)(c, rtz, a, w) } else { (self.z.Z3_mk_fpa_to_ubv)(c, rtz, a, w) });
                    let ge_hi = self.keep((self.z.Z3_mk_fpa_leq)(c, hif, a));
                    let le_lo = self.keep((self.z.Z3_mk_fpa_leq)(c, a, lof));
                    let nan = self.keep((self.z.Z3_mk_fpa_is_nan)(c, a));
                    let r1 = self.keep((self.z.Z3_mk_ite)(c, le_lo, self.keepnum(lok, w), conv));
                    let r2 = self.keep((self.z.Z3_mk_ite)(c, ge_hi, self.keepnum(hik, w), r1));
                    (self.z.Z3_mk_ite)(c, nan, self.keepnum(0, w), r2)
                }
                Op::FMin | Op::FMax if !ar.has_fp[n.a as usize] && !ar.has_fp[n.b as usize] => {
                    let (ab, bb) = (self.bv(n.a), self.bv(n.b));
                    let (na, _, ka) = self.ord(ar, n.a);
                    let (nb, _, kb) = self.ord(ar, n.b);
                    let lt = self.keep((self.z.Z3_mk_bvult)(c, ka, kb));
                    let (p, q) = if n.op == Op::FMin { (ab, bb) } else { (bb, ab) };
                    let r = self.keep((self.z.Z3_mk_ite)(c, lt, p, q));
                    let r = self.keep((self.z.Z3_mk_ite)(c, nb, ab, r));
                    (self.z.Z3_mk_ite)(c, na, bb, r)
                }
                Op::FMin | Op::FMax => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    let (ab, bb) = (self.bv(n.a), self.bv(n.b));
                    let na = self.keep((self.z.Z3_mk_fpa_is_nan)(c, a));
                    let nb = self.keep((self.z.Z3_mk_fpa_is_nan)(c, b));
                    let eq = self.keep((self.z.Z3_mk_fpa_eq)(c, a, b));
                    let nega = self.keep((self.z.Z3_mk_fpa_is_negative)(c, a));
                    let lt = self.keep((self.z.Z3_mk_fpa_lt)(c, a, b));
                    let (p, q) = if n.op == Op::FMin { (ab, bb) } else { (bb, ab) };
                    let r0 = self.keep((self.z.Z3_mk_ite)(c, lt, p, q));
                    let r1e = self.keep((self.z.Z3_mk_ite)(c, nega, p, q));
                    let r1 = self.keep((self.z.Z3_mk_ite)(c, eq, r1e, r0));
                    let r2 = self.keep((self.z.Z3_mk_ite)(c, nb, ab, r1));
                    (self.z.Z3_mk_ite)(c, na, bb, r2)
                }
                Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe | Op::FNan => unreachable!(),
            }
        }
    }
}

impl Solver {
    pub fn new(path: &str, timeout_ms: u32) -> Option<Solver> {
        let z = Z3::load(path)?;
        Some(Solver {
            cx: Ctx::new(z, timeout_ms),
            second: None,
            cache: FxMap::default(),
            recent: VecDeque::new(),
            timeout_ms,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            cache_hits: 0,
            model_hits: 0,
            time_us: 0,
            max_us: 0,
            fp_queries: 0,
            relaxed: 0,
            cross_checked: 0,
            disagreements: 0,
            dump: None,
        })
    }
    pub fn version(&self) -> String {
        self.cx.z.version.clone()
    }

    /// Is `cons` (slice relevant to `extra`) together with `extra` satisfiable?
    /// `base` is a model of cons; the returned model extends it outside the slice.
    pub fn check(&mut self, ar: &mut Arena, cons: &[E], extra: E, base: &[u8]) -> Res {
        match ar.as_const(extra) {
            Some(0) => return Res::Unsat,
            Some(_) => return Res::Sat(Rc::new(base.to_vec())),
            None => {}
        }
        // slice
        let mut vs: FxSet<u32> = ar.vars(extra).iter().copied().collect();
        let mut used = vec![false; cons.len()];
        let mut slice: Vec<E> = Vec::new();
        loop {
            let mut changed = false;
            for (i, c) in cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cv = ar.vars(*c);
                if cv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    slice.push(*c);
                    for v in cv.iter() {
                        changed |= vs.insert(*v);
                    }
                }
            }
            if !changed {
                break;
            }
        }
        slice.push(extra);
        slice.sort_unstable();
        slice.dedup();
        let merge = |m: &Vec<u8>| -> Rc<Vec<u8>> {
            let mut r = base.to_vec();
            for v in &vs {
                let v = *v as usize;
                if r.len() <= v {
                    r.resize(v + 1, 0);
                }
                r[v] = m.get(v).copied().unwrap_or(0);
            }
            Rc::new(r)
        };
        if let Some(r) = self.cache.get(&slice) {
            self.cache_hits += 1;
            return match r {
                Res::Sat(m) => Res::Sat(merge(m)),
                o => o.clone(),
            };
        }
        for m in self.recent.iter() {
            let mut memo = FxMap::default();
            // most selective first: extra
            if ar.eval(extra, m, &mut memo) != 0 && slice.iter().all(|c| ar.eval(*c, m, &mut memo) != 0) {
                self.model_hits += 1;
                return Res::Sat(merge(m));
            }
        }
        let r = self.solve(ar, &slice, &vs, base);
        if let Some(s2) = &mut self.second {
            // cross-check the verdict with the second solver build
            let r2 = s2.solve(ar, &slice, &vs, base);
            self.cross_checked += 1;
            match (&r, &r2) {
                (Res::Sat(_), Res::Unsat) | (Res::Unsat, Res::Sat(_)) => {
                    self.disagreements += 1;
                }
                _ => {}
            }
        }
        self.cache.insert(slice, r.clone());
        match &r {
            Res::Sat(m) => {
                self.recent.push_front(m.clone());
                if self.recent.len() > 8 {
                    self.recent.pop_back();
                }
                Res::Sat(merge(m))
            }
            o => o.clone(),
        }
    }

    /// decides a query with floating point operations through its linear relaxation, when it has
    /// one: unsatisfiable decides it, and a solution decides it when the evaluator confirms it
    fn solve_relaxed(&mut self, ar: &Arena, slice: &[E], base: &[u8]) -> Option<Res> {
        let cx = &self.cx;
        let (z, ctx, s) = (&cx.z, cx.ctx, cx.slra);
        let mut rx = crate::relax::Relax::new(z, ctx, ar);
        for c in slice {
            rx.facts(*c, true);
        }
        let mut top = Vec::new();
        for c in slice {
            top.push(rx.boolean(*c));
        }
        if rx.linear == 0 {
            if std::env::var("SYMX_DEBUG").is_ok() {
                eprintln!("no relaxation");
                debug_tree(ar, slice);
            }
            return None;
        }
        unsafe {
            (z.Z3_solver_push)(ctx, s);
            for p in top.iter().chain(rx.side.iter()) {
                (z.Z3_solver_assert)(ctx, s, *p);
            }
            let code = (z.Z3_solver_check)(ctx, s);
            let mut vals = Vec::new();
            if code == 1 {
                let m = (z.Z3_solver_get_model)(ctx, s);
                (z.Z3_model_inc_ref)(ctx, m);
                for (e, t) in &rx.inputs {
                    let mut o: P = std::ptr::null_mut();
                    if (z.Z3_model_eval)(ctx, m, *t, true, &mut o) {
                        (z.Z3_inc_ref)(ctx, o);
                        let d = CStr::from_ptr((z.Z3_get_numeral_decimal_string)(ctx, o, 60)).to_string_lossy().to_string();
                        if let Ok(v) = d.trim_end_matches('?').parse::<f64>() {
                            vals.push((*e, v));
                        }
                    }
                }
                (z.Z3_model_dec_ref)(ctx, m);
            }
            if std::env::var("SYMX_DEBUG").is_ok() && code != -1 {
                eprintln!("relaxation: {} {:?}", code, vals);
                if let Ok(f) = std::env::var("SYMX_DUMP_RELAX") {
                    let t = CStr::from_ptr((z.Z3_solver_to_string)(ctx, s)).to_string_lossy().to_string();
                    let _ = std::fs::write(f, t + "\n(check-sat)(get-model)\n");
                }
            }
            (z.Z3_solver_pop)(ctx, s, 1);
            if code == -1 {
                return Some(Res::Unsat);
            }
            if code != 1 {
                return None;
            }
            // candidates: the solution rounded to the format, and its neighbours
            for k in 0..9i64 {
                let off = if k % 2 == 0 { k / 2 } else { -(k / 2) - 1 };
                let mut m = base.to_vec();
                let ok = vals.iter().all(|(e, v)| {
                    let bits = if ar.w(*e) == 32 { ((*v as f32).to_bits() as i64 + off).max(0) as u32 as u128 } else { (v.to_bits() as i64 + off) as u64 as u128 };
                    crate::relax::Relax::assign(ar, *e, bits, &mut m)
                });
                let mut memo = FxMap::default();
                if ok && slice.iter().all(|c| ar.eval(*c, &m, &mut memo) != 0) {
                    return Some(Res::Sat(Rc::new(m)));
                }
            }
        }
        if std::env::var("SYMX_DEBUG").is_ok() {
            eprintln!("relaxation undecided, {} linear operations, {} inputs {:?}", rx.linear, rx.inputs.len(), 0);
            debug_tree(ar, slice);
        }
        None
    }

    fn solve(&mut self, ar: &Arena, slice: &[E], vs: &FxSet<u32>, base: &[u8]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let fp = slice.iter().any(|c| ar.has_fp[*c as usize]);
        if fp {
            self.fp_queries += 1;
            if let Some(r) = self.solve_relaxed(ar, slice, base) {
                self.relaxed += 1;
                match r {
                    Res::Sat(_) => self.sat += 1,
                    _ => self.unsat += 1,
                }
                let us = t0.elapsed().as_micros() as u64;
                self.time_us += us;
                self.max_us = self.max_us.max(us);
                return r;
            }
        }
        let r;
        unsafe {
            let cx = &mut self.cx;
            let s = if fp { cx.sfp } else { cx.sbv };
            (cx.z.Z3_solver_push)(cx.ctx, s);
            for c in slice {
                cx.build(ar, *c);
                let b = cx.boolean(*c);
                (cx.z.Z3_solver_assert)(cx.ctx, s, b);
            }
            let code = (cx.z.Z3_solver_check)(cx.ctx, s);
            r = match code {
                1 => {
                    let m = (cx.z.Z3_solver_get_model)(cx.ctx, s);
                    (cx.z.Z3_model_inc_ref)(cx.ctx, m);
                    let mut out = Vec::new();
                    let bs = (cx.z.Z3_mk_bv_sort)(cx.ctx, 8);
                    for v in vs {
                        let sy = (cx.z.Z3_mk_int_symbol)(cx.ctx, *v as c_int);
                        let k = (cx.z.Z3_mk_const)(cx.ctx, sy, bs);
                        let k = cx.keep(k);
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if (cx.z.Z3_model_eval)(cx.ctx, m, k, true, &mut o) {
                            let o2 = cx.keep(o);
                            (cx.z.Z3_get_numeral_uint64)(cx.ctx, o2, &mut val);
                        }
                        let v = *v as usize;
                        if out.len() <= v {
                            out.resize(v + 1, 0u8);
                        }
                        out[v] = val as u8;
                    }
                    (cx.z.Z3_model_dec_ref)(cx.ctx, m);
                    Res::Sat(Rc::new(out))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if matches!(r, Res::Unknown) {
                if let Some(d) = &self.dump {
                    let t = CStr::from_ptr((cx.z.Z3_solver_to_string)(cx.ctx, s)).to_string_lossy().to_string();
                    let _ = std::fs::write(d, t + "\n(check-sat)\n");
                }
            }
            (cx.z.Z3_solver_pop)(cx.ctx, s, 1);
        }
        // a model must satisfy the query under our own evaluator (guards the translation)
        let r = if let Res::Sat(m) = &r {
            let mut memo = FxMap::default();
            if slice.iter().all(|c| ar.eval(*c, m, &mut memo) != 0) {
                r
            } else {
                if std::env::var("SYMX_DEBUG").is_ok() {
                    eprintln!("model rejected by evaluator (fp={})", fp);
                }
                Res::Unknown
            }
        } else {
            r
        };
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let us = t0.elapsed().as_micros() as u64;
        self.time_us += us;
        self.max_us = self.max_us.max(us);
        r
    }
}

fn debug_tree(ar: &Arena, slice: &[E]) {
            let mut st: Vec<E> = slice.to_vec();
            let mut seen = FxSet::default();
            while let Some(x) = st.pop() {
                if !seen.insert(x) {
                    continue;
                }
                let n = ar.node(x);
                let k = nkids(n.op);
                let kids = [n.a, n.b, n.c][..k].to_vec();
                eprintln!("  {}:{} {:?} {:?} {}", x, n.w, n.op, kids, if n.op == Op::Const && n.w == 32 { format!("{:e}", f32::from_bits(n.k as u32)) } else if n.op == Op::Const && n.w == 64 { format!("{:e}", f64::from_bits(n.k as u64)) } else { n.k.to_string() });
                st.extend(kids);
            }
}
