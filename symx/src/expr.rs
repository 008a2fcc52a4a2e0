//! Hash-consed bit-vector expressions with a rewriting constructor layer.
//! Every value in the executor is a constant or one of these; floats are their IEEE bit patterns.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
    // floating point: operands are bit patterns, width says which format (32/64)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    FRnd, // k: 0 floor 1 ceil 2 trunc 3 round-away 4 round-even
    FEq,
    FLt,
    FLe,
    FNan,
    FCvt,  // float <-> double, width = target
    UToF,
    SToF,
    FToU, // saturating
    FToS, // saturating
    FMin, // IEEE minimumNumber
    FMax,
    FFma,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<Node, E>,
    vars: FxMap<E, Rc<Vec<u32>>>,
    pub has_fp: Vec<bool>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn f32f(k: u128) -> f32 {
    f32::from_bits(k as u32)
}
fn f64f(k: u128) -> f64 {
    f64::from_bits(k as u64)
}

/// Concrete evaluation of an operator. `wa` is the width of the first operand.
pub fn eval_op(op: Op, w: u32, wa: u32, a: u128, b: u128, c: u128, k: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Const => k,
        Op::Var => unreachable!(),
        Op::Add => a.wrapping_add(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Concat => unreachable!(),
        Op::Extract => (a >> (k as u32)) & m,
        Op::SExt => (sext(a, wa) as u128) & m,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
            if w == 32 {
                let (x, y) = (f32f(a), f32f(b));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    Op::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits() as u128
            } else {
                let (x, y) = (f64f(a), f64f(b));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    Op::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits() as u128
            }
        }
        Op::FFma => {
            if w == 32 {
                f32f(a).mul_add(f32f(b), f32f(c)).to_bits() as u128
            } else {
                f64f(a).mul_add(f64f(b), f64f(c)).to_bits() as u128
            }
        }
        Op::FSqrt => {
            if w == 32 {
                f32f(a).sqrt().to_bits() as u128
            } else {
                f64f(a).sqrt().to_bits() as u128
            }
        }
        Op::FRnd => {
            if w == 32 {
                let x = f32f(a);
                (match k {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.trunc(),
                    3 => x.round(),
                    _ => x.round_ties_even(),
                })
                .to_bits() as u128
            } else {
                let x = f64f(a);
                (match k {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.trunc(),
                    3 => x.round(),
                    _ => x.round_ties_even(),
                })
                .to_bits() as u128
            }
        }
        Op::FEq => (if wa == 32 { f32f(a) == f32f(b) } else { f64f(a) == f64f(b) }) as u128,
        Op::FLt => (if wa == 32 { f32f(a) < f32f(b) } else { f64f(a) < f64f(b) }) as u128,
        Op::FLe => (if wa == 32 { f32f(a) <= f32f(b) } else { f64f(a) <= f64f(b) }) as u128,
        Op::FNan => (if wa == 32 { f32f(a).is_nan() } else { f64f(a).is_nan() }) as u128,
        Op::FCvt => {
            if wa == 32 && w == 64 {
                (f32f(a) as f64).to_bits() as u128
            } else {
                (f64f(a) as f32).to_bits() as u128
            }
        }
        Op::UToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::SToF => {
            let x = sext(a, wa);
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::FToU => {
            let x = if wa == 32 { f32f(a) as f64 } else { f64f(a) };
            let v = x as u128; // saturating, NaN -> 0
            if v > m {
                m
            } else {
                v
            }
        }
        Op::FToS => {
            let x = if wa == 32 { f32f(a) as f64 } else { f64f(a) };
            let v = x as i128;
            let hi = (m >> 1) as i128;
            let lo = -hi - 1;
            (v.clamp(lo, hi) as u128) & m
        }
        Op::FMin | Op::FMax => {
            let is_min = op == Op::FMin;
            if w == 32 {
                let (x, y) = (f32f(a), f32f(b));
                let r = if x.is_nan() {
                    y
                } else if y.is_nan() {
                    x
                } else if x == y {
                    if (x.is_sign_negative()) == is_min {
                        x
                    } else {
                        y
                    }
                } else if (x < y) == is_min {
                    x
                } else {
                    y
                };
                r.to_bits() as u128
            } else {
                let (x, y) = (f64f(a), f64f(b));
                let r = if x.is_nan() {
                    y
                } else if y.is_nan() {
                    x
                } else if x == y {
                    if (x.is_sign_negative()) == is_min {
                        x
                    } else {
                        y
                    }
                } else if (x < y) == is_min {
                    x
                } else {
                    y
                };
                r.to_bits() as u128
            }
        }
    }
}

fn is_fp(op: Op) -> bool {
    op >= Op::FAdd
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { n: Vec::new(), map: FxMap::default(), vars: FxMap::default(), has_fp: Vec::new() };
        // index 0 is reserved (means "concrete" in memory overlays)
        a.n.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        a.has_fp.push(false);
        a
    }
    /// the expression, if it exists already
    pub fn find(&self, n: Node) -> Option<E> {
        self.map.get(&n).copied()
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.n.len() as E;
        let nk = nkids(n.op);
        // comparisons, minimum and maximum are expressed over the bits
        let fp = is_fp(n.op) && !matches!(n.op, Op::FEq | Op::FLt | Op::FLe | Op::FNan | Op::FMin | Op::FMax)
            || (nk > 0 && self.has_fp[n.a as usize])
            || (nk > 1 && self.has_fp[n.b as usize])
            || (nk > 2 && self.has_fp[n.c as usize]);
        self.n.push(n);
        self.has_fp.push(fp);
        self.map.insert(n, e);
        e
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn node(&self, e: E) -> Node {
        self.n[e as usize]
    }
    pub fn cst(&mut self, k: u128, w: u32) -> E {
        self.intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, id: u32) -> E {
        self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 })
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        self.intern(Node { op, w: w as u16, a, b, c, k })
    }

    pub fn not1(&mut self, a: E) -> E {
        let t = self.cst(1, 1);
        self.bin(Op::Xor, a, t)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let z = self.cst(0, w - wa);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.node(a);
        match n.op {
            Op::Const => return self.cst(sext(n.k, wa) as u128, w),
            Op::Concat => {
                if let Some(k) = self.as_const(n.a) {
                    let wh = self.w(n.a);
                    if (k >> (wh - 1)) & 1 == 0 {
                        return self.zext(a, w);
                    }
                }
            }
            Op::SExt => return self.sext(n.a, w),
            Op::Ite => {
                if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                    let x = self.sext(n.b, w);
                    let y = self.sext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        debug_assert!(w <= 4096);
        let nh = self.node(hi);
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        let nl = self.node(lo);
        // top leaf of lo
        let (top, rest) = if nl.op == Op::Concat { (nl.a, Some(nl.b)) } else { (lo, None) };
        let nt = self.node(top);
        let mut merged = None;
        if nh.op == Op::Const && nt.op == Op::Const {
            let wt = nt.w as u32;
            if wh + wt <= 128 {
                merged = Some(self.cst((nh.k << wt) | nt.k, wh + wt));
            }
        } else if nh.op == Op::Extract && nt.op == Op::Extract && nh.a == nt.a {
            if nh.k == nt.k + nt.w as u128 {
                merged = Some(self.extract(nh.a, nt.k as u32, wh + nt.w as u32));
            }
        } else if nh.op == Op::Extract && nh.a == top && nh.k == nt.w as u128 {
            // cannot happen (top is the full low part of something else)
        } else if nh.op == Op::Ite && nt.op == Op::Ite && nh.a == nt.a && wh + nt.w as u32 <= 128 {
            let all = self.as_const(nh.b).is_some()
                && self.as_const(nh.c).is_some()
                && self.as_const(nt.b).is_some()
                && self.as_const(nt.c).is_some();
            if all {
                let x = self.concat(nh.b, nt.b);
                let y = self.concat(nh.c, nt.c);
                merged = Some(self.ite(nh.a, x, y));
            }
        }
        if let Some(m) = merged {
            return match rest {
                Some(r) => self.concat(m, r),
                None => m,
            };
        }
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }

    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo + w <= wa, "extract {} {} of {}", lo, w, wa);
        let n = self.node(a);
        match n.op {
            Op::Const => self.cst(n.k >> lo, w),
            Op::Extract => self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    self.extract(n.a, lo - wl, w)
                } else if lo + w <= wl {
                    self.extract(n.b, lo, w)
                } else {
                    let x = self.extract(n.b, lo, wl - lo);
                    let y = self.extract(n.a, 0, lo + w - wl);
                    self.concat(y, x)
                }
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.raw(Op::Extract, w, a, 0, 0, lo as u128)
                }
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.raw(Op::Extract, w, a, 0, 0, lo as u128)
                }
            }
            _ => self.raw(Op::Extract, w, a, 0, 0, lo as u128),
        }
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let nc = self.node(c);
        if nc.op == Op::Const {
            return if nc.k != 0 { a } else { b };
        }
        let w = self.w(a);
        if nc.op == Op::Xor {
            // not
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let x = self.not1(c);
                    return self.bin(Op::And, x, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let x = self.not1(c);
                    return self.bin(Op::Or, x, a);
                }
                _ => {}
            }
        }
        let na = self.node(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.node(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    /// segments from low to high
    fn segs(&self, e: E, out: &mut Vec<E>) {
        let mut parts = Vec::new();
        let mut cur = e;
        loop {
            let n = self.node(cur);
            if n.op == Op::Concat {
                parts.push(n.a);
                cur = n.b;
            } else {
                parts.push(cur);
                break;
            }
        }
        parts.reverse();
        out.extend(parts);
    }
    /// Bitwise operator over concatenations: split at the union of the boundaries.
    fn bitwise_split(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (mut sa, mut sb) = (Vec::new(), Vec::new());
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        if sa.len() < 2 && sb.len() < 2 {
            return None;
        }
        let mut cuts: Vec<u32> = Vec::new();
        for s in [&sa, &sb] {
            let mut p = 0;
            for x in s {
                p += self.w(*x);
                cuts.push(p);
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut lo = 0;
        let mut acc: Option<E> = None;
        for c in cuts {
            let x = self.extract(a, lo, c - lo);
            let y = self.extract(b, lo, c - lo);
            let r = self.bin(op, x, y);
            acc = Some(match acc {
                None => r,
                Some(l) => self.concat(r, l),
            });
            lo = c;
        }
        acc
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        if a == b {
            let w = self.w(a);
            return self.cst(0, w);
        }
        let nb = self.neg(b);
        self.bin(Op::Add, a, nb)
    }
    pub fn neg(&mut self, b: E) -> E {
        let w = self.w(b);
        let ones = self.cst(mask(w), w);
        // -b = b * (2^w - 1)
        self.bin(Op::Mul, b, ones)
    }

    /// Are two float expressions the same up to the order of the operands of + and *?
    fn same_fp(&self, a: E, b: E, fuel: &mut u32) -> bool {
        if a == b {
            return true;
        }
        if *fuel == 0 {
            return false;
        }
        *fuel -= 1;
        let (x, y) = (self.node(a), self.node(b));
        if x.op != y.op || x.w != y.w || !matches!(x.op, Op::FAdd | Op::FMul) {
            return false;
        }
        (self.same_fp(x.a, y.a, fuel) && self.same_fp(x.b, y.b, fuel))
            || (self.same_fp(x.a, y.b, fuel) && self.same_fp(x.b, y.a, fuel))
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let wa = self.w(a);
        debug_assert_eq!(wa, self.w(b), "{:?}", op);
        let (mut a, mut b) = (a, b);
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq);
        if comm {
            let ca = self.n[a as usize].op == Op::Const;
            let cb = self.n[b as usize].op == Op::Const;
            if (ca && !cb) || (ca == cb && a > b && !is_fp(op)) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let na = self.node(a);
        let nb = self.node(b);
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe) { 1 } else { wa };
        if na.op == Op::Const && nb.op == Op::Const && wa <= 128 {
            let k = eval_op(op, rw, wa, na.k, nb.k, 0, 0);
            return self.cst(k, rw);
        }
        let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
        let m = mask(wa);
        match op {
            Op::FLt if a == b => return self.cst(0, 1),
            // the same sums and products with their operands the other way around (equal as
            // numbers; which NaN comes out is not told apart, as in SMT's floating point theory)
            Op::Eq if is_fp(na.op) && na.op == nb.op && self.same_fp(a, b, &mut 4096) => return self.cst(1, 1),
            Op::FMin | Op::FMax if a == b => return a,
            Op::FEq | Op::FLe if a == b => {
                let n = self.raw(Op::FNan, 1, a, 0, 0, 0);
                return self.not1(n);
            }
            Op::Add => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(k.wrapping_add(k2), wa);
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                    if na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                } else {
                    // x + (-x)
                    if nb.op == Op::Mul && nb.a == a && self.as_const(nb.b) == Some(m) {
                        return self.cst(0, wa);
                    }
                    if na.op == Op::Mul && na.a == b && self.as_const(na.b) == Some(m) {
                        return self.cst(0, wa);
                    }
                    // (x + k) + y -> (x + y) + k ; also cancels (x+k) + (-x)
                    if na.op == Op::Add && self.as_const(na.b).is_some() {
                        let s = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                    if nb.op == Op::Add && self.as_const(nb.b).is_some() {
                        let s = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, s, nb.b);
                    }
                }
            }
            Op::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        let x = self.extract(a, 0, wa - s);
                        let z = self.cst(0, s);
                        return self.concat(x, z);
                    }
                    if na.op == Op::Mul {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(k.wrapping_mul(k2), wa);
                            return self.bin(Op::Mul, na.a, c);
                        }
                    }
                    if k == m && na.op == Op::Add {
                        // -(x+k) = -x + -k
                        if self.as_const(na.b).is_some() {
                            let x = self.neg(na.a);
                            let y = self.neg(na.b);
                            return self.bin(Op::Add, x, y);
                        }
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        if s == 0 {
                            return a;
                        }
                        let x = self.extract(a, s, wa - s);
                        return self.zext(x, wa);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        if s == 0 {
                            return self.cst(0, wa);
                        }
                        let x = self.extract(a, 0, s);
                        return self.zext(x, wa);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if wa > 1 {
                        // split the mask into runs
                        let mut runs = 0;
                        let mut prev = 2;
                        for i in 0..wa {
                            let bit = (k >> i) & 1;
                            if bit != prev {
                                runs += 1;
                                prev = bit;
                            }
                        }
                        if runs <= 5 {
                            let mut lo = 0;
                            let mut acc: Option<E> = None;
                            while lo < wa {
                                let bit = (k >> lo) & 1;
                                let mut hi = lo;
                                while hi < wa && (k >> hi) & 1 == bit {
                                    hi += 1;
                                }
                                let p = if bit == 1 { self.extract(a, lo, hi - lo) } else { self.cst(0, hi - lo) };
                                acc = Some(match acc {
                                    None => p,
                                    Some(l) => self.concat(p, l),
                                });
                                lo = hi;
                            }
                            return acc.unwrap();
                        }
                    }
                }
                if wa == 1 {
                    if self.is_not(a, b) {
                        return self.cst(0, 1);
                    }
                    // x & (x & y) = x & y
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                } else if let Some(r) = self.bitwise_split(op, a, b) {
                    return r;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if wa == 1 {
                    if self.is_not(a, b) {
                        return self.cst(1, 1);
                    }
                } else if let Some(r) = self.bitwise_split(op, a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(0, wa);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(k ^ k2, wa);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                    if na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if wa > 1 {
                    if let Some(r) = self.bitwise_split(op, a, b) {
                        return r;
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= wa as u128 {
                        return self.cst(0, wa);
                    }
                    let x = self.extract(a, 0, wa - k as u32);
                    let z = self.cst(0, k as u32);
                    return self.concat(x, z);
                }
                if na.op == Op::Const && na.k == 0 {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= wa as u128 {
                        return self.cst(0, wa);
                    }
                    let x = self.extract(a, k as u32, wa - k as u32);
                    return self.zext(x, wa);
                }
                if na.op == Op::Const && na.k == 0 {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = if k >= wa as u128 { wa - 1 } else { k as u32 };
                    let x = self.extract(a, k, wa - k);
                    return self.sext(x, wa);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if wa == 1 {
                    if let Some(k) = kb {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not1(x);
                }
                if let Some(k) = kb {
                    match na.op {
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, na.b, b);
                                let q = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let c = self.cst(k ^ k2, wa);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let c = self.cst(k.wrapping_sub(k2), wa);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::SExt => {
                            let wi = self.w(na.a);
                            if sext(k & mask(wi), wi) as u128 & m != k {
                                return self.cst(0, 1);
                            }
                            let c = self.cst(k, wi);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        _ => {}
                    }
                }
                if na.op == Op::Concat || nb.op == Op::Concat {
                    // only split when boundaries line up or the other side is constant/concat
                    let (mut sa, mut sb) = (Vec::new(), Vec::new());
                    self.segs(a, &mut sa);
                    self.segs(b, &mut sb);
                    if kb.is_some() || na.op == Op::Const || (sa.len() > 1 && sb.len() > 1) {
                        let mut cuts: Vec<u32> = Vec::new();
                        for s in [&sa, &sb] {
                            let mut p = 0;
                            for x in s {
                                p += self.w(*x);
                                cuts.push(p);
                            }
                        }
                        cuts.sort();
                        cuts.dedup();
                        let mut acc = self.cst(1, 1);
                        let mut lo = 0;
                        for c in cuts {
                            let x = self.extract(a, lo, c - lo);
                            let y = self.extract(b, lo, c - lo);
                            let r = self.bin(Op::Eq, x, y);
                            if self.as_const(r) == Some(0) {
                                return r;
                            }
                            acc = self.bin(Op::And, acc, r);
                            lo = c;
                        }
                        return acc;
                    }
                }
                // (x + k1) == (y + k1)
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult => {
                if a == b {
                    return self.cst(0, 1);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return self.cst(0, 1);
                    }
                    if k == 1 {
                        let z = self.cst(0, wa);
                        return self.bin(Op::Eq, a, z);
                    }
                    if k == m {
                        let x = self.bin(Op::Eq, a, b);
                        return self.not1(x);
                    }
                }
                if na.op == Op::Const {
                    if na.k == m {
                        return self.cst(0, 1);
                    }
                    if na.k == 0 {
                        let x = self.bin(Op::Eq, b, a);
                        return self.not1(x);
                    }
                }
                // compare high constant parts
                let la = self.lead_zeros(a);
                let lb = self.lead_zeros(b);
                let l = la.min(lb);
                if l > 0 && l < wa {
                    let x = self.extract(a, 0, wa - l);
                    let y = self.extract(b, 0, wa - l);
                    return self.bin(Op::Ult, x, y);
                }
                if kb.is_some() || na.op == Op::Const {
                    let (lo_a, hi_a) = self.bounds(a, 4);
                    let (lo_b, hi_b) = self.bounds(b, 4);
                    if hi_a < lo_b {
                        return self.cst(1, 1);
                    }
                    if lo_a >= hi_b {
                        return self.cst(0, 1);
                    }
                }
                if na.op == Op::Ite && kb.is_some() && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
                    let x = self.bin(op, na.b, b);
                    let y = self.bin(op, na.c, b);
                    return self.ite(na.a, x, y);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.cst(0, 1);
                }
                let la = self.lead_zeros(a);
                let lb = self.lead_zeros(b);
                if la > 0 && lb > 0 {
                    return self.bin(Op::Ult, a, b);
                }
                if kb == Some(0) {
                    return self.extract(a, wa - 1, 1);
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Slt, na.a, nb.a);
                }
                if na.op == Op::SExt {
                    if let Some(k) = kb {
                        let wi = self.w(na.a);
                        let ks = sext(k, wa);
                        let lim = 1i128 << (wi - 1);
                        if ks >= lim {
                            return self.cst(1, 1);
                        }
                        if ks < -lim {
                            return self.cst(0, 1);
                        }
                        let c = self.cst(k, wi);
                        return self.bin(Op::Slt, na.a, c);
                    }
                }
            }
            _ => {}
        }
        self.raw(op, rw, a, b, 0, 0)
    }

    fn is_not(&self, a: E, b: E) -> bool {
        let na = self.node(a);
        let nb = self.node(b);
        (na.op == Op::Xor && na.a == b && self.as_const(na.b) == Some(1)) || (nb.op == Op::Xor && nb.a == a && self.as_const(nb.b) == Some(1))
    }
    fn lead_zeros(&self, e: E) -> u32 {
        let n = self.node(e);
        match n.op {
            Op::Const => {
                let w = n.w as u32;
                if n.k == 0 {
                    w
                } else {
                    w - (128 - n.k.leading_zeros())
                }
            }
            Op::Concat => {
                let z = self.lead_zeros(n.a);
                if z == self.w(n.a) {
                    z + self.lead_zeros(n.b)
                } else {
                    z
                }
            }
            _ => 0,
        }
    }
    /// cheap unsigned interval
    fn bounds(&self, e: E, depth: u32) -> (u128, u128) {
        let n = self.node(e);
        let full = (0, mask(n.w as u32));
        if n.w > 128 {
            return (0, !0);
        }
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Concat => {
                let (al, ah) = if depth > 0 { self.bounds(n.a, depth - 1) } else { (0, mask(self.w(n.a))) };
                let wl = self.w(n.b);
                let (bl, bh) = if depth > 0 { self.bounds(n.b, depth - 1) } else { (0, mask(wl)) };
                if wl >= 128 {
                    return (bl, bh);
                }
                ((al << wl) | bl, (ah << wl) | bh)
            }
            Op::Ite if depth > 0 => {
                let x = self.bounds(n.b, depth - 1);
                let y = self.bounds(n.c, depth - 1);
                (x.0.min(y.0), x.1.max(y.1))
            }
            Op::Add if depth > 0 => {
                let x = self.bounds(n.a, depth - 1);
                let y = self.bounds(n.b, depth - 1);
                match x.1.checked_add(y.1) {
                    Some(h) if h <= full.1 => (x.0 + y.0, h),
                    _ => full,
                }
            }
            Op::URem => {
                if let Some(k) = self.as_const(n.b) {
                    if k > 0 {
                        return (0, k - 1);
                    }
                }
                full
            }
            _ => full,
        }
    }

    pub fn un(&mut self, op: Op, a: E, w: u32, k: u128) -> E {
        let wa = self.w(a);
        if let Some(x) = self.as_const(a) {
            let r = eval_op(op, w, wa, x, 0, 0, k);
            return self.cst(r, w);
        }
        self.raw(op, w, a, 0, 0, k)
    }
    pub fn tri(&mut self, op: Op, a: E, b: E, c: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y), Some(z)) = (self.as_const(a), self.as_const(b), self.as_const(c)) {
            let r = eval_op(op, w, w, x, y, z, 0);
            return self.cst(r, w);
        }
        self.raw(op, w, a, b, c, 0)
    }

    pub fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars.get(&e) {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vars.contains_key(&x) {
                continue;
            }
            let n = self.node(x);
            let k = nkids(n.op);
            if !done {
                stack.push((x, true));
                for (i, c) in [n.a, n.b, n.c].iter().enumerate() {
                    if i < k {
                        stack.push((*c, false));
                    }
                }
                continue;
            }
            let r = match n.op {
                Op::Const => Rc::new(Vec::new()),
                Op::Var => Rc::new(vec![n.k as u32]),
                _ => {
                    if k == 1 {
                        self.vars[&n.a].clone()
                    } else {
                        let mut v: Vec<u32> = self.vars[&n.a].to_vec();
                        let l0 = v.len();
                        v.extend(self.vars[&n.b].iter());
                        if k > 2 {
                            v.extend(self.vars[&n.c].iter());
                        }
                        v.sort_unstable();
                        v.dedup();
                        if v.len() == l0 {
                            self.vars[&n.a].clone()
                        } else {
                            Rc::new(v)
                        }
                    }
                }
            };
            self.vars.insert(x, r);
        }
        self.vars[&e].clone()
    }

    /// Evaluate under a byte assignment (missing variables are 0). Wide concats (>128) unsupported.
    pub fn eval(&self, e: E, vals: &[u8], memo: &mut FxMap<E, u128>) -> u128 {
        if let Some(k) = self.as_const(e) {
            return k;
        }
        if let Some(k) = memo.get(&e) {
            return *k;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.node(x);
            match n.op {
                Op::Const => {
                    memo.insert(x, n.k);
                    stack.pop();
                    continue;
                }
                Op::Var => {
                    memo.insert(x, vals.get(n.k as usize).copied().unwrap_or(0) as u128);
                    stack.pop();
                    continue;
                }
                _ => {}
            }
            let k = nkids(n.op);
            let mut ready = true;
            let mut v = [0u128; 3];
            for (i, c) in [n.a, n.b, n.c].iter().enumerate() {
                if i >= k {
                    break;
                }
                if let Some(kv) = self.as_const(*c) {
                    v[i] = kv;
                } else if let Some(kv) = memo.get(c) {
                    v[i] = *kv;
                } else {
                    stack.push(*c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let wa = self.w(n.a);
            let r = if n.op == Op::Concat {
                let wl = self.w(n.b);
                (v[0] << wl) | v[1]
            } else {
                eval_op(n.op, n.w as u32, wa, v[0], v[1], v[2], n.k)
            };
            memo.insert(x, r);
        }
        memo[&e]
    }
}

pub fn nkids(op: Op) -> usize {
    match op {
        Op::Const | Op::Var => 0,
        Op::Extract | Op::SExt | Op::FSqrt | Op::FRnd | Op::FNan | Op::FCvt | Op::UToF | Op::SToF | Op::FToU | Op::FToS => 1,
        Op::Ite | Op::FFma => 3,
        _ => 2,
    }
}
