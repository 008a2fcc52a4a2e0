//! Linear real relaxation of floating point queries.
//!
//! Every rounded operation is replaced by a real variable that lies within the format's rounding
//! error of the exact result, so every execution of the real code is a solution of the relaxed
//! query: an unsatisfiable relaxation decides the query.  A solution of the relaxation is only a
//! candidate, which the caller evaluates bit-exactly.
use crate::expr::*;
use crate::solver::{Z3, P};
use std::ffi::CString;

#[derive(Clone, Copy)]
struct R {
    t: P,
    lo: f64,
    hi: f64,
}

pub struct Relax<'a> {
    z: &'a Z3,
    ctx: P,
    ar: &'a Arena,
    lo: FxMap<E, f64>,
    hi: FxMap<E, f64>,
    reals: FxMap<E, Option<R>>,
    ints: FxMap<E, R>,
    bools: FxMap<E, P>,
    exact: FxMap<E, (P, u32)>,
    signs: FxMap<E, P>,
    lemmas: FxSet<(E, u64)>,
    pub side: Vec<P>,
    pub inputs: Vec<(E, P)>,
    rsort: P,
    bsort: P,
    /// number of arithmetic operations that were relaxed with a linear constraint
    pub linear: usize,
}

fn pow2s(k: u32) -> String {
    muls("1".into(), k)
}
fn muls(s: String, k: u32) -> String {
    let mut d: Vec<u8> = s.bytes().rev().map(|b| b - b'0').collect();
    for _ in 0..k {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (x + b'0') as char).collect()
}
/// exact (negative, numerator, denominator) of a finite double
fn rat(v: f64) -> (bool, String, String) {
    let b = v.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    if m == 0 {
        return (false, "0".into(), "1".into());
    }
    while m % 2 == 0 {
        m /= 2;
        e += 1;
    }
    if e >= 0 {
        (v < 0.0, muls(m.to_string(), e as u32), "1".into())
    } else {
        (v < 0.0, m.to_string(), pow2s((-e) as u32))
    }
}
fn down(x: f64) -> f64 {
    if x == 0.0 {
        -f64::from_bits(1)
    } else {
        f64::from_bits(if x > 0.0 { x.to_bits() - 1 } else { x.to_bits() + 1 })
    }
}
fn up(x: f64) -> f64 {
    -down(-x)
}
/// not less than x > 0, with a short mantissa
fn coarse(x: f64) -> f64 {
    f64::from_bits((x.to_bits() | ((1 << 44) - 1)) + 1)
}
/// bounds of the exact result of an operation; exact where the double result is
fn around(r: f64, exact: bool) -> (f64, f64) {
    if !r.is_finite() || (r != 0.0 && r.abs() < 1e-290) {
        (f64::NAN, f64::NAN)
    } else if exact {
        (r, r)
    } else {
        (down(r), up(r))
    }
}
fn sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let t = s - a;
    around(s, (a - (s - t)) + (b - t) == 0.0)
}
fn product(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    if p == 0.0 && a != 0.0 && b != 0.0 {
        return (f64::NAN, f64::NAN);
    }
    around(p, p == 0.0 || a.mul_add(b, -p) == 0.0)
}
fn quotient(a: f64, b: f64) -> (f64, f64) {
    let q = a / b;
    if q == 0.0 && a != 0.0 {
        return (f64::NAN, f64::NAN);
    }
    around(q, q == 0.0 || q.mul_add(b, -a) == 0.0)
}
fn f32ok(v: f64) -> bool {
    v.abs() < 3.4028234e38
}

impl<'a> Relax<'a> {
    pub fn new(z: &'a Z3, ctx: P, ar: &'a Arena) -> Relax<'a> {
        let (rsort, bsort) = unsafe { ((z.Z3_mk_real_sort)(ctx), (z.Z3_mk_bool_sort)(ctx)) };
        let r = Relax {
            z,
            ctx,
            ar,
            lo: FxMap::default(),
            hi: FxMap::default(),
            reals: FxMap::default(),
            ints: FxMap::default(),
            bools: FxMap::default(),
            exact: FxMap::default(),
            signs: FxMap::default(),
            lemmas: FxSet::default(),
            side: Vec::new(),
            inputs: Vec::new(),
            rsort,
            bsort,
            linear: 0,
        };
        r.keep(rsort);
        r.keep(bsort);
        r
    }
    fn keep(&self, p: P) -> P {
        unsafe { (self.z.Z3_inc_ref)(self.ctx, p) };
        p
    }
    fn num(&self, v: f64) -> P {
        let (n, a, b) = rat(v);
        let s = CString::new(format!("{}{}/{}", if n { "-" } else { "" }, a, b)).unwrap();
        self.keep(unsafe { (self.z.Z3_mk_numeral)(self.ctx, s.as_ptr(), self.rsort) })
    }
    fn recip(&self, v: f64) -> P {
        let (n, a, b) = rat(v);
        let s = CString::new(format!("{}{}/{}", if n { "-" } else { "" }, b, a)).unwrap();
        self.keep(unsafe { (self.z.Z3_mk_numeral)(self.ctx, s.as_ptr(), self.rsort) })
    }
    fn fresh(&mut self, lo: f64, hi: f64) -> R {
        let n = CString::new("r").unwrap();
        let t = self.keep(unsafe { (self.z.Z3_mk_fresh_const)(self.ctx, n.as_ptr(), self.rsort) });
        let (l, h) = (self.num(lo), self.num(hi));
        let a = self.le(l, t);
        let b = self.le(t, h);
        self.side.push(a);
        self.side.push(b);
        R { t, lo, hi }
    }
    fn fbool(&self) -> P {
        let n = CString::new("b").unwrap();
        self.keep(unsafe { (self.z.Z3_mk_fresh_const)(self.ctx, n.as_ptr(), self.bsort) })
    }
    fn le(&self, a: P, b: P) -> P {
        self.keep(unsafe { (self.z.Z3_mk_le)(self.ctx, a, b) })
    }
    fn lt(&self, a: P, b: P) -> P {
        self.keep(unsafe { (self.z.Z3_mk_lt)(self.ctx, a, b) })
    }
    fn eq(&self, a: P, b: P) -> P {
        self.keep(unsafe { (self.z.Z3_mk_eq)(self.ctx, a, b) })
    }
    fn not(&self, a: P) -> P {
        self.keep(unsafe { (self.z.Z3_mk_not)(self.ctx, a) })
    }
    fn imp(&self, a: P, b: P) -> P {
        let n = self.not(a);
        self.keep(unsafe { (self.z.Z3_mk_or)(self.ctx, 2, [n, b].as_ptr()) })
    }
    fn ite(&self, c: P, a: P, b: P) -> P {
        self.keep(unsafe { (self.z.Z3_mk_ite)(self.ctx, c, a, b) })
    }
    fn add(&self, a: P, b: P) -> P {
        self.keep(unsafe { (self.z.Z3_mk_add)(self.ctx, 2, [a, b].as_ptr()) })
    }
    fn sub(&self, a: P, b: P) -> P {
        self.keep(unsafe { (self.z.Z3_mk_sub)(self.ctx, 2, [a, b].as_ptr()) })
    }
    fn mul(&self, a: P, b: P) -> P {
        self.keep(unsafe { (self.z.Z3_mk_mul)(self.ctx, 2, [a, b].as_ptr()) })
    }
    fn fconst(&self, x: E) -> Option<f64> {
        let n = self.ar.node(x);
        if n.op != Op::Const {
            return None;
        }
        let v = match n.w {
            32 => f32::from_bits(n.k as u32) as f64,
            64 => f64::from_bits(n.k as u64),
            _ => return None,
        };
        Some(v)
    }
    /// the float whose bits below the sign are `m`
    fn of_magnitude(&self, m: E) -> Option<E> {
        let n = self.ar.node(m);
        let w = self.ar.w(m) + 1;
        match n.op {
            Op::Extract if n.k == 0 && self.ar.w(n.a) == w => Some(n.a),
            Op::Concat => {
                // the top byte cut short
                let t = self.ar.node(n.a);
                if t.op != Op::Extract || t.k != 0 || self.ar.w(t.a) != t.w as u32 + 1 {
                    return None;
                }
                self.ar.find(Node { op: Op::Concat, w: w as u16, a: t.a, b: n.b, c: 0, k: 0 })
            }
            _ => None,
        }
    }
    /// the float whose magnitude `x` is
    fn of_abs(&self, x: E) -> Option<E> {
        let n = self.ar.node(x);
        match n.op {
            Op::Concat if self.ar.as_const(n.a) == Some(0) && self.ar.w(n.a) == 1 => self.of_magnitude(n.b),
            Op::And if self.ar.as_const(n.b) == Some(mask(n.w as u32 - 1)) => Some(n.a),
            _ => None,
        }
    }
    fn at_most(&mut self, x: E, k: f64) {
        let e = self.hi.entry(x).or_insert(k);
        *e = e.min(k);
    }
    fn at_least(&mut self, x: E, k: f64) {
        let e = self.lo.entry(x).or_insert(k);
        *e = e.max(k);
    }
    /// bounds of floats stated by the query (they also exclude NaN)
    pub fn facts(&mut self, c: E, pos: bool) {
        let n = self.ar.node(c);
        match n.op {
            Op::And if pos && n.w == 1 => {
                self.facts(n.a, true);
                self.facts(n.b, true);
            }
            Op::Or if !pos && n.w == 1 => {
                self.facts(n.a, false);
                self.facts(n.b, false);
            }
            Op::Xor if n.w == 1 && self.ar.as_const(n.b) == Some(1) => self.facts(n.a, !pos),
            Op::FLe | Op::FLt | Op::FEq if pos => {
                if let Some(k) = self.fconst(n.a) {
                    self.at_least(n.b, k);
                    if n.op == Op::FEq {
                        self.hi.insert(n.b, k);
                    }
                }
                if let Some(k) = self.fconst(n.b) {
                    if let Some(x) = self.of_abs(n.a) {
                        self.at_most(x, k);
                        self.at_least(x, -k);
                    }
                    self.at_most(n.a, k);
                    if n.op == Op::FEq {
                        self.lo.insert(n.a, k);
                    }
                }
            }
            _ => {}
        }
    }
    /// a value of format `w` that is the rounding of `e`, which lies in [lo, hi]
    fn rnd(&mut self, x: E, e: P, lo: f64, hi: f64, w: u32) -> Option<R> {
        if !lo.is_finite() || !hi.is_finite() || (lo != 0.0 && lo.abs() < 1e-290) || (hi != 0.0 && hi.abs() < 1e-290) {
            return None;
        }
        let m = lo.abs().max(hi.abs());
        let (rlo, rhi, rel, tiny) = if w == 32 {
            if !f32ok(m) {
                return None;
            }
            ((lo as f32) as f64, (hi as f32) as f64, 2f64.powi(-24), coarse((m * 2f64.powi(-40)).max(1.0e-45)))
        } else {
            if m > 1e300 {
                return None;
            }
            (lo, hi, 2f64.powi(-53), coarse((m * 2f64.powi(-70)).max(1e-300)))
        };
        let r = self.fresh(rlo, rhi);
        let k = self.num(coarse(m * rel) + tiny);
        let (a, b) = (self.add(e, k), self.sub(e, k));
        let (p, q) = (self.le(r.t, a), self.le(b, r.t));
        self.side.push(p);
        self.side.push(q);
        if lo >= -tiny || hi <= tiny {
            let (u, d, t) = (self.num(1.0 + rel), self.num(1.0 - rel), self.num(2.0 * tiny));
            let (eu, ed) = (self.mul(e, u), self.mul(e, d));
            let (big, small) = if lo >= -tiny { (eu, ed) } else { (ed, eu) };
            let big = self.add(big, t);
            let small = self.sub(small, t);
            let (p, q) = (self.le(r.t, big), self.le(small, r.t));
            self.side.push(p);
            self.side.push(q);
        }
        self.exact.insert(x, (e, w));
        self.linear += 1;
        Some(r)
    }
    fn real(&mut self, x: E) -> Option<R> {
        if let Some(r) = self.reals.get(&x) {
            return *r;
        }
        let r = self.real1(x);
        self.reals.insert(x, r);
        r
    }
    fn real1(&mut self, x: E) -> Option<R> {
        let n = self.ar.node(x);
        let w = n.w as u32;
        if w != 32 && w != 64 {
            return None;
        }
        if let Some(k) = self.fconst(x) {
            if !k.is_finite() {
                return None;
            }
            return Some(R { t: self.num(k), lo: k, hi: k });
        }
        let r = match n.op {
            Op::Ite => {
                let (a, b) = (self.real(n.b)?, self.real(n.c)?);
                let c = self.boolean(n.a);
                Some(R { t: self.ite(c, a.t, b.t), lo: a.lo.min(b.lo), hi: a.hi.max(b.hi) })
            }
            Op::FAdd => {
                let (a, b) = (self.real(n.a)?, self.real(n.b)?);
                let e = self.add(a.t, b.t);
                self.rnd(x, e, sum(a.lo, b.lo).0, sum(a.hi, b.hi).1, w)
            }
            Op::FSub => {
                let (a, b) = (self.real(n.a)?, self.real(n.b)?);
                let e = self.sub(a.t, b.t);
                self.rnd(x, e, sum(a.lo, -b.hi).0, sum(a.hi, -b.lo).1, w)
            }
            Op::FMul | Op::FDiv => {
                let (a, b) = (self.real(n.a)?, self.real(n.b)?);
                if n.op == Op::FDiv && b.lo <= 0.0 && b.hi >= 0.0 {
                    return None;
                }
                let c: Vec<(f64, f64)> = [(a.lo, b.lo), (a.lo, b.hi), (a.hi, b.lo), (a.hi, b.hi)].iter().map(|(p, q)| if n.op == Op::FMul { product(*p, *q) } else { quotient(*p, *q) }).collect();
                if c.iter().any(|(p, q)| p.is_nan() || q.is_nan()) {
                    return None;
                }
                let (lo, hi) = (c.iter().map(|c| c.0).fold(f64::INFINITY, f64::min), c.iter().map(|c| c.1).fold(f64::NEG_INFINITY, f64::max));
                let lo = if n.op == Op::FMul && n.a == n.b { lo.max(0.0) } else { lo };
                if n.op == Op::FMul && (a.lo == a.hi || b.lo == b.hi) {
                    let e = self.mul(a.t, b.t);
                    self.rnd(x, e, lo, hi, w)
                } else if n.op == Op::FDiv && b.lo == b.hi {
                    let k = self.recip(b.lo);
                    let e = self.mul(a.t, k);
                    self.rnd(x, e, lo, hi, w)
                } else {
                    self.range(lo, hi, w)
                }
            }
            Op::FSqrt => {
                let a = self.real(n.a)?;
                if a.lo < 0.0 {
                    return None;
                }
                self.range(a.lo.sqrt(), a.hi.sqrt(), w)
            }
            Op::FCvt => {
                let a = self.real(n.a)?;
                if w == 64 {
                    if let Some(e) = self.exact.get(&n.a).copied() {
                        self.exact.insert(x, e);
                    }
                    Some(a)
                } else {
                    self.rnd(x, a.t, a.lo, a.hi, w)
                }
            }
            Op::UToF => {
                let a = self.int(n.a);
                if a.hi <= if w == 32 { 16777216.0 } else { 9007199254740992.0 } {
                    Some(a)
                } else {
                    self.rnd(x, a.t, a.lo, a.hi, w)
                }
            }
            Op::SToF => {
                let a = self.int(n.a);
                if a.hi >= 2f64.powi(self.ar.w(n.a) as i32 - 1) {
                    None
                } else if a.hi <= if w == 32 { 16777216.0 } else { 9007199254740992.0 } {
                    Some(a)
                } else {
                    self.rnd(x, a.t, a.lo, a.hi, w)
                }
            }
            Op::FMin | Op::FMax => {
                let (a, b) = (self.real(n.a)?, self.real(n.b)?);
                let min = n.op == Op::FMin;
                if a.hi <= b.lo {
                    Some(if min { a } else { b })
                } else if b.hi <= a.lo {
                    Some(if min { b } else { a })
                } else {
                    let c = self.le(a.t, b.t);
                    let t = if min { self.ite(c, a.t, b.t) } else { self.ite(c, b.t, a.t) };
                    Some(if min { R { t, lo: a.lo.min(b.lo), hi: a.hi.min(b.hi) } } else { R { t, lo: a.lo.max(b.lo), hi: a.hi.max(b.hi) } })
                }
            }
            Op::Xor if self.ar.as_const(n.b) == Some(1 << (w - 1)) => {
                let a = self.real(n.a)?;
                let z = self.num(0.0);
                Some(R { t: self.sub(z, a.t), lo: -a.hi, hi: -a.lo })
            }
            Op::And if self.ar.as_const(n.b) == Some(mask(w - 1)) => {
                let a = self.real(n.a)?;
                let z = self.num(0.0);
                let neg = self.sub(z, a.t);
                let c = self.le(z, a.t);
                let hi = a.lo.abs().max(a.hi.abs());
                Some(R { t: self.ite(c, a.t, neg), lo: 0.0, hi })
            }
            Op::Concat if self.ar.w(n.a) == 1 => {
                // the magnitude of one float with another sign
                if let Some(m) = self.of_magnitude(n.b) {
                    self.real(m).map(|a| {
                        let z = self.num(0.0);
                        let neg = self.sub(z, a.t);
                        let (c, s) = (self.le(z, a.t), self.boolean(n.a));
                        let hi = a.lo.abs().max(a.hi.abs());
                        let (mag, nmag) = (self.ite(c, a.t, neg), self.ite(c, neg, a.t));
                        let (lo, hi) = match self.ar.as_const(n.a) {
                            Some(0) => (0.0, hi),
                            Some(_) => (-hi, 0.0),
                            None => (-hi, hi),
                        };
                        R { t: self.ite(s, nmag, mag), lo, hi }
                    })
                } else {
                    None
                }
            }
            _ => None,
        };
        if r.is_some() {
            return r;
        }
        // an input: any float within the stated bounds
        match (self.lo.get(&x).copied(), self.hi.get(&x).copied()) {
            (Some(l), Some(h)) if l.is_finite() && h.is_finite() && l <= h => {
                let r = self.fresh(l, h);
                if !self.ar.has_fp[x as usize] {
                    self.inputs.push((x, r.t));
                }
                Some(r)
            }
            _ => None,
        }
    }
    fn range(&mut self, lo: f64, hi: f64, w: u32) -> Option<R> {
        let (lo, hi) = (down(down(lo)), up(up(hi)));
        if !lo.is_finite() || !hi.is_finite() || (w == 32 && !(f32ok(lo) && f32ok(hi))) {
            return None;
        }
        Some(if w == 32 { self.fresh((lo as f32) as f64, (hi as f32) as f64) } else { self.fresh(lo, hi) })
    }
    /// unsigned value of a bit vector
    fn int(&mut self, x: E) -> R {
        if let Some(r) = self.ints.get(&x) {
            return *r;
        }
        let r = match self.int1(x) {
            Some(r) => r,
            None => {
                let w = self.ar.w(x);
                // powers of two are exact, and the value is at most 2^w - 1
                self.fresh(0.0, if w <= 53 { 2f64.powi(w as i32) - 1.0 } else { 2f64.powi(w as i32) })
            }
        };
        self.ints.insert(x, r);
        r
    }
    fn int1(&mut self, x: E) -> Option<R> {
        let n = self.ar.node(x);
        let w = n.w as u32;
        match n.op {
            Op::Const if n.k < 1 << 53 => Some(R { t: self.num(n.k as f64), lo: n.k as f64, hi: n.k as f64 }),
            Op::FToU => {
                let a = self.real(n.a)?;
                let top = if w <= 53 { 2f64.powi(w as i32) - 1.0 } else { 2f64.powi(w as i32) };
                if a.hi >= top {
                    return None;
                }
                let r = self.fresh(a.lo.max(0.0).floor(), a.hi.max(0.0).floor());
                let (z, one) = (self.num(0.0), self.num(1.0));
                let pos = self.le(z, a.t);
                let (up, lo) = (self.le(r.t, a.t), self.sub(a.t, one));
                let lo = self.lt(lo, r.t);
                let zero = self.le(r.t, z);
                let (p, q, s) = (self.imp(pos, up), self.imp(pos, lo), {
                    let np = self.not(pos);
                    self.imp(np, zero)
                });
                self.side.extend([p, q, s]);
                self.linear += 1;
                Some(r)
            }
            Op::FToS => {
                let a = self.real(n.a)?;
                if a.lo < 0.0 || a.hi >= 2f64.powi((w as i32 - 1).min(52)) {
                    return None;
                }
                let r = self.fresh(a.lo.floor(), a.hi.floor());
                let one = self.num(1.0);
                let lo = self.sub(a.t, one);
                let (p, q) = (self.le(r.t, a.t), self.lt(lo, r.t));
                self.side.extend([p, q]);
                self.linear += 1;
                Some(r)
            }
            Op::Concat => {
                let wb = self.ar.w(n.b);
                if wb > 50 {
                    return None;
                }
                let (a, b) = (self.int(n.a), self.int(n.b));
                let s = 2f64.powi(wb as i32);
                if a.hi * s + b.hi >= 2f64.powi(53) {
                    return None;
                }
                let k = self.num(s);
                let hi = self.mul(a.t, k);
                Some(R { t: self.add(hi, b.t), lo: a.lo * s + b.lo, hi: a.hi * s + b.hi })
            }
            Op::Extract if n.k == 0 => {
                let a = self.int(n.a);
                if a.hi < 2f64.powi(w as i32) {
                    Some(a)
                } else {
                    None
                }
            }
            Op::Extract => {
                let a = self.int(n.a);
                let k = n.k as i32;
                if k > 50 || a.hi >= 2f64.powi(k + w as i32) {
                    return None;
                }
                let s = 2f64.powi(k);
                let r = self.fresh((a.lo / s).floor(), (a.hi / s).floor());
                let ks = self.num(s);
                let m = self.mul(r.t, ks);
                let ms = self.add(m, ks);
                let (p, q) = (self.le(m, a.t), self.lt(a.t, ms));
                self.side.extend([p, q]);
                Some(r)
            }
            Op::Ite => {
                let (a, b) = (self.int(n.b), self.int(n.c));
                let c = self.boolean(n.a);
                Some(R { t: self.ite(c, a.t, b.t), lo: a.lo.min(b.lo), hi: a.hi.max(b.hi) })
            }
            Op::Add => {
                let (a, b) = (self.int(n.a), self.int(n.b));
                if a.hi + b.hi >= 2f64.powi((w as i32).min(53)) {
                    return None;
                }
                Some(R { t: self.add(a.t, b.t), lo: a.lo + b.lo, hi: a.hi + b.hi })
            }
            _ => None,
        }
    }
    /// rounding to a format is monotone and keeps its values: e <= K (with slack below half a
    /// unit) gives round(e) <= K, and the same the other way round
    fn lemma(&mut self, x: E, k: f64) {
        let Some((e, w)) = self.exact.get(&x).copied() else { return };
        let h = if w == 32 {
            if (k as f32) as f64 != k {
                return;
            }
            let a = (k as f32).abs();
            let d = a as f64 - f32::from_bits(a.to_bits().max(1) - 1) as f64;
            d / 4.0
        } else {
            0.0
        };
        if !self.lemmas.insert((x, k.to_bits())) {
            return;
        }
        let r = self.reals[&x].unwrap().t;
        let (ku, kd, kk) = (self.num(k + h), self.num(k - h), self.num(k));
        let (a, b) = (self.le(e, ku), self.le(r, kk));
        let (c, d) = (self.le(kd, e), self.le(kk, r));
        let (p, q) = (self.imp(a, b), self.imp(c, d));
        self.side.extend([p, q]);
    }
    /// sign bit of a float
    fn sign(&mut self, x: E) -> P {
        if let Some(p) = self.signs.get(&x) {
            return *p;
        }
        let n = self.ar.node(x);
        let w = n.w as u32;
        let p = if n.op == Op::Xor && self.ar.as_const(n.b) == Some(1 << (w - 1)) {
            let p = self.sign(n.a);
            self.not(p)
        } else if n.op == Op::Concat && self.ar.w(n.a) == 1 {
            self.boolean(n.a)
        } else {
            let p = self.fbool();
            if let Some(r) = self.real(x) {
                let z = self.num(0.0);
                let (le, ge) = (self.le(r.t, z), self.le(z, r.t));
                let np = self.not(p);
                let (a, b) = (self.imp(p, le), self.imp(np, ge));
                self.side.extend([a, b]);
            }
            p
        };
        self.signs.insert(x, p);
        p
    }
    pub fn boolean(&mut self, x: E) -> P {
        if let Some(p) = self.bools.get(&x) {
            return *p;
        }
        let n = self.ar.node(x);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        (self.z.Z3_mk_true)(c)
                    } else {
                        (self.z.Z3_mk_false)(c)
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let v = [self.boolean(n.a), self.boolean(n.b)];
                    match n.op {
                        Op::And => (self.z.Z3_mk_and)(c, 2, v.as_ptr()),
                        Op::Or => (self.z.Z3_mk_or)(c, 2, v.as_ptr()),
                        _ => (self.z.Z3_mk_xor)(c, v[0], v[1]),
                    }
                }
                Op::Ite => {
                    let (i, a, b) = (self.boolean(n.a), self.boolean(n.b), self.boolean(n.c));
                    (self.z.Z3_mk_ite)(c, i, a, b)
                }
                Op::FLe | Op::FLt | Op::FEq => match (self.real(n.a), self.real(n.b)) {
                    (Some(a), Some(b)) => {
                        if let Some(k) = self.fconst(n.b) {
                            self.lemma(n.a, k);
                        }
                        if let Some(k) = self.fconst(n.a) {
                            self.lemma(n.b, k);
                        }
                        match n.op {
                            Op::FLe => self.le(a.t, b.t),
                            Op::FLt => self.lt(a.t, b.t),
                            _ => self.eq(a.t, b.t),
                        }
                    }
                    _ => self.fbool(),
                },
                Op::FNan => match self.real(n.a) {
                    Some(_) => (self.z.Z3_mk_false)(c),
                    None => self.fbool(),
                },
                Op::Eq => {
                    let w = self.ar.w(n.a);
                    if w == 1 {
                        let (a, b) = (self.boolean(n.a), self.boolean(n.b));
                        self.eq(a, b)
                    } else if w <= 53 {
                        let (a, b) = (self.int(n.a), self.int(n.b));
                        let p = self.eq(a.t, b.t);
                        if let (Some(a), Some(b)) = (self.real(n.a), self.real(n.b)) {
                            let e = self.eq(a.t, b.t);
                            let i = self.imp(p, e);
                            self.side.push(i);
                        }
                        p
                    } else {
                        let p = self.fbool();
                        if let (Some(a), Some(b)) = (self.real(n.a), self.real(n.b)) {
                            let e = self.eq(a.t, b.t);
                            let i = self.imp(p, e);
                            self.side.push(i);
                        }
                        p
                    }
                }
                Op::Slt if self.ar.as_const(n.b) == Some(0) && matches!(self.ar.w(n.a), 32 | 64) => self.sign(n.a),
                Op::Slt if matches!(self.ar.w(n.a), 32 | 64) && self.ar.as_const(n.a) == Some(mask(self.ar.w(n.a))) => {
                    let p = self.sign(n.b);
                    self.not(p)
                }
                Op::Extract if n.w == 1 && matches!(self.ar.w(n.a), 32 | 64) && n.k as u32 == self.ar.w(n.a) - 1 => self.sign(n.a),
                Op::Ult if self.ar.w(n.a) <= 53 => {
                    let (a, b) = (self.int(n.a), self.int(n.b));
                    self.lt(a.t, b.t)
                }
                _ => self.fbool(),
            }
        };
        self.keep(r);
        self.bools.insert(x, r);
        r
    }
    /// bytes that make the input expression `x` equal to `v`
    pub fn assign(ar: &Arena, x: E, v: u128, m: &mut Vec<u8>) -> bool {
        let n = ar.node(x);
        match n.op {
            Op::Const => n.k == v,
            Op::Var => {
                let k = n.k as usize;
                if m.len() <= k {
                    m.resize(k + 1, 0);
                }
                m[k] = v as u8;
                true
            }
            Op::Concat => {
                let wb = ar.w(n.b);
                Self::assign(ar, n.a, v >> wb, m) && Self::assign(ar, n.b, v & mask(wb), m)
            }
            _ => false,
        }
    }
}
