//! Symbolic executor over the parsed IR: states, memory, forking, instructions.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    L(u32),
    V(Val),
}

/// instruction with operands resolved
#[derive(Debug)]
pub enum X {
    Bin(B, u32, Ty, Opd, Opd),
    ICmp(Pred, u32, Ty, Opd, Opd),
    FCmp(Rc<str>, u32, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    Cast(Cast, u32, Ty, Opd, Ty),
    Alloca(u32, u64, u64, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u32, u64)>),
    Select(u32, bool, Ty, Opd, Opd, Opd),
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opd)>, next: Option<u32> },
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Opd, Opd),
    InsertElement(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<i64>),
    AtomicRmw(Rc<str>, u32, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Freeze(u32, Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Debug)]
pub enum Callee {
    F(u32),
    Ind(Opd),
}
pub struct CBlock {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<X>,
}
pub struct CFunc {
    pub id: u32,
    pub params: Vec<u32>,
    pub nlocals: usize,
    pub blocks: Vec<CBlock>,
}

#[derive(Clone)]
pub enum FKind {
    Unres,
    Def(Rc<CFunc>),
    Bi(Bi),
    Missing,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    Nop,
    Memcpy,
    Memset,
    Named,
    Panic,
    Format,
}
pub struct FInfo {
    pub name: Rc<str>,
    pub base: Rc<str>,
    pub kind: FKind,
    pub ir_insts: u32,
    pub is_fmt: bool,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>,
    pub ro: bool,
    pub kind: u8, // 0 heap 1 stack 2 global
}
impl Obj {
    fn ensure(&mut self, n: usize) {
        if self.data.len() < n {
            let want = if n < 4096 { n } else { (n * 3 / 2).min(self.size as usize).max(n) };
            self.data.resize(want, 0);
            if let Some(s) = &mut self.sym {
                s.resize(want, 0);
            }
        }
    }
}

const OFF0: u64 = 0x1000_0000;
const GSLOT: u64 = 0x1000_0000;
const FSLOT: u64 = 0x2000_0000;

pub struct ModelS {
    pub vals: Rc<Vec<u8>>,
    pub memo: RefCell<FxMap<E, u128>>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<CFunc>,
    pub bb: u32,
    pub ip: u32,
    pub loc: Vec<Val>,
    pub dst: Option<u32>,
    pub inv: Option<u32>,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: VecDeque<u32>,
    pub gover: FxMap<u32, Rc<Obj>>,
    pub cons: Vec<E>,
    pub model: Rc<ModelS>,
    pub nvars: u32,
    pub fixed: FxMap<u32, u8>,
    pub fixed_e: FxMap<E, u128>,
    pub log: Vec<(Val, u32)>,
    pub reach: Vec<u32>,
    pub instrs: u64,
    pub depth: u32,
    pub stub_fmt: bool,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Viol(String, String),
    Infeasible,
    Done,
    Unsupported(String),
}
type Rs<T> = Result<T, Stop>;

#[derive(Default, Clone, Debug)]
pub struct CheckStat {
    pub folded: u64,
    pub proved: u64,
    pub violated: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub site: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
    pub count: u64,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub input: Vec<u8>,
    pub log: Vec<u64>,
    pub reach: Vec<String>,
}

/// resident memory of this process in MiB
fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) / 256
}

pub struct Limits {
    pub secs: f64,
    /// seconds to go on after the first violation
    pub viol_secs: f64,
    pub mem_mb: u64,
    pub paths: u64,
    pub path_instrs: u64,
    pub samples: usize,
}

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub sv: Solver,
    pub fns: Vec<FInfo>,
    fidx: HashMap<Rc<str>, u32>,
    gidx: HashMap<Rc<str>, u32>,
    gnames: Vec<Rc<str>>,
    gbase: Vec<Option<Rc<Obj>>>,
    pub params: Vec<u64>,
    pub strs: Vec<String>,
    stridx: HashMap<String, u32>,
    pub work: Vec<State>,
    pub lim: Limits,
    // results
    pub paths: u64,
    pub paths_viol: u64,
    pub paths_infeasible: u64,
    pub forks: u64,
    pub instrs: u64,
    pub max_depth: u32,
    pub max_instrs: u64,
    pub checks: BTreeMap<String, CheckStat>,
    pub reached: BTreeMap<String, u64>,
    pub viols: Vec<Violation>,
    pub unsupported: BTreeMap<String, u64>,
    pub incomplete: Option<String>,
    /// exploration ended early, some time after a violation
    pub stopped: bool,
    viol_end: Option<f64>,
    pub samples: Vec<Sample>,
    pub sample_stride: u64,
    pub max_vars: u32,
    pub trace: bool,
    pub trace_ins: bool,
    pub trace_q: bool,
    pub forksites: FxMap<u64, u64>,
    pub seed: u64,
}

fn norm_name(n: &str) -> Rc<str> {
    n.into()
}

impl Exec {
    pub fn new(m: Module, sv: Solver, lim: Limits) -> Exec {
        Exec {
            m,
            ar: Arena::new(),
            sv,
            fns: vec![],
            fidx: HashMap::new(),
            gidx: HashMap::new(),
            gnames: vec![],
            gbase: vec![],
            params: vec![],
            strs: vec![],
            stridx: HashMap::new(),
            work: vec![],
            lim,
            paths: 0,
            paths_viol: 0,
            paths_infeasible: 0,
            forks: 0,
            instrs: 0,
            max_depth: 0,
            max_instrs: 0,
            checks: BTreeMap::new(),
            reached: BTreeMap::new(),
            viols: vec![],
            unsupported: BTreeMap::new(),
            incomplete: None,
            stopped: false,
            viol_end: None,
            samples: vec![],
            sample_stride: 1,
            max_vars: 0,
            trace: std::env::var("SYMX_TRACE").is_ok(),
            trace_ins: std::env::var("SYMX_TRACE").as_deref() == Ok("2"),
            trace_q: std::env::var("SYMX_Q").is_ok(),
            forksites: FxMap::default(),
            seed: 1,
        }
    }

    // ---------- names, functions, globals ----------
    fn fn_id(&mut self, n: &str) -> u32 {
        if let Some(i) = self.fidx.get(n) {
            return *i;
        }
        let name = norm_name(n);
        let i = self.fns.len() as u32;
        let base: Rc<str> = if let Some(r) = n.strip_prefix("llvm.") {
            // strip type suffixes (.i64, .p0, .v4f32 ...)
            let parts: Vec<&str> = r.split('.').collect();
            let mut k = parts.len();
            while k > 1 {
                let p = parts[k - 1];
                let istype = {
                    let b = p.as_bytes();
                    let dig = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
                    (b[0] == b'i' && dig(&p[1..])) || (b[0] == b'p' && dig(&p[1..])) || (b[0] == b'f' && dig(&p[1..])) || (b[0] == b'v' && p.len() > 2 && b[1].is_ascii_digit()) || p == "sl_s" || p == "sl"
                };
                if istype {
                    k -= 1;
                } else {
                    break;
                }
            }
            parts[..k].join(".").as_str().into()
        } else {
            n.into()
        };
        // formatting whose text is not looked at: format!() and print!()
        let is_fmt = n.starts_with("_R") && (n.contains("_5alloc3fmt6format") && !n.contains("to_string") || n.contains("_3std2io5stdio6__print"));
        self.fns.push(FInfo { name: name.clone(), base, kind: FKind::Unres, ir_insts: 0, is_fmt });
        self.fidx.insert(name, i);
        i
    }
    pub fn sym_addr(&mut self, n: &str) -> u64 {
        let mut n: Rc<str> = n.into();
        while let Some(a) = self.m.aliases.get(&n) {
            n = a.clone();
        }
        if self.m.globals.contains_key(&n) {
            if let Some(g) = self.gidx.get(&n) {
                return ((GSLOT + *g as u64) << 32) + OFF0;
            }
            let g = self.gnames.len() as u32;
            self.gnames.push(n.clone());
            self.gbase.push(None);
            self.gidx.insert(n, g);
            return ((GSLOT + g as u64) << 32) + OFF0;
        }
        let i = self.fn_id(&n);
        (FSLOT << 32) + OFF0 + 16 * i as u64
    }
    fn gobj(&mut self, g: u32) -> Result<Rc<Obj>, Stop> {
        if let Some(o) = &self.gbase[g as usize] {
            return Ok(o.clone());
        }
        let n = self.gnames[g as usize].clone();
        let (t, k, _al, ro) = self.m.global(&n).map_err(Stop::Unsupported)?.unwrap();
        let size = t.size().max(if k.is_none() { 8 } else { 0 });
        let mut buf = vec![0u8; size as usize];
        if let Some(k) = k {
            self.put_const(&k, &t, &mut buf, 0).map_err(Stop::Unsupported)?;
        }
        let o = Rc::new(Obj { size, data: buf, sym: None, ro, kind: 2 });
        self.gbase[g as usize] = Some(o.clone());
        Ok(o)
    }
    fn put_const(&mut self, k: &K, t: &Ty, buf: &mut [u8], off: usize) -> Result<(), String> {
        match k {
            K::Int(v, _) => {
                let n = t.store_size() as usize;
                buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            K::Bytes(b) => buf[off..off + b.len()].copy_from_slice(b),
            K::Zero(_) | K::Undef(_) => {}
            K::Sym(n, o) => {
                let a = self.sym_addr(n).wrapping_add(*o as u64);
                let n = (t.store_size() as usize).min(8);
                buf[off..off + n].copy_from_slice(&a.to_le_bytes()[..n]);
            }
            K::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let (o, ft) = match t {
                        Ty::Arr(_, et) | Ty::Vec(_, et) => (et.size() * i as u64, (**et).clone()),
                        Ty::Struct(..) => t.field(i),
                        _ => return Err(format!("const agg {:?}", t)),
                    };
                    self.put_const(x, &ft, buf, off + o as usize)?;
                }
            }
        }
        Ok(())
    }
    fn kval(&mut self, k: &K) -> Val {
        match k {
            K::Int(v, _) => Val::C(*v),
            K::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            K::Zero(t) | K::Undef(t) => zero_val(t),
            K::Sym(n, o) => Val::C(self.sym_addr(n).wrapping_add(*o as u64) as u128),
            K::Agg(v) => {
                let r = v.iter().map(|x| self.kval(x)).collect();
                Val::A(Rc::new(r))
            }
        }
    }
    fn o(&mut self, o: &O) -> Opd {
        match o {
            O::L(i) => Opd::L(*i),
            O::K(k) => Opd::V(self.kval(k)),
        }
    }
    fn compile(&mut self, f: &Func, id: u32) -> CFunc {
        let mut blocks = Vec::with_capacity(f.blocks.len());
        for b in &f.blocks {
            let mut phis = vec![];
            for (d, _t, v) in &b.phis {
                let v = v.iter().map(|(o, bb)| (*bb, self.o(o))).collect();
                phis.push((*d, v));
            }
            let mut ins = Vec::with_capacity(b.ins.len());
            for i in &b.ins {
                ins.push(self.compile_ins(i));
            }
            blocks.push(CBlock { phis, ins });
        }
        CFunc { id, params: f.params.clone(), nlocals: f.nlocals, blocks }
    }
    fn compile_ins(&mut self, i: &I) -> X {
        match i {
            I::Bin(b, d, t, x, y) => X::Bin(*b, *d, t.clone(), self.o(x), self.o(y)),
            I::ICmp(p, d, t, x, y) => {
                let p = match &**p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    o => return X::Unsupported(format!("icmp {}", o)),
                };
                X::ICmp(p, *d, t.clone(), self.o(x), self.o(y))
            }
            I::FCmp(p, d, t, x, y) => X::FCmp(p.clone(), *d, t.clone(), self.o(x), self.o(y)),
            I::FNeg(d, t, x) => X::FNeg(*d, t.clone(), self.o(x)),
            I::Cast(c, d, t, x, tt) => X::Cast(*c, *d, t.clone(), self.o(x), tt.clone()),
            I::Alloca(d, s, a, _t, c) => X::Alloca(*d, *s, *a, self.o(c)),
            I::Load(d, t, p) => X::Load(*d, t.clone(), self.o(p)),
            I::Store(t, v, p) => X::Store(t.clone(), self.o(v), self.o(p)),
            I::Gep(d, b, off, ix) => {
                let b = self.o(b);
                let ix = ix.iter().map(|(o, t, s)| (self.o(o), t.bits(), *s)).collect();
                X::Gep(*d, b, *off, ix)
            }
            I::Select(d, ct, t, c, x, y) => X::Select(*d, matches!(ct, Ty::Vec(..)), t.clone(), self.o(c), self.o(x), self.o(y)),
            I::Call { dst, ret, callee, args, next } => {
                let callee = match callee {
                    O::K(K::Sym(n, 0)) => {
                        let mut n: Rc<str> = n.clone();
                        while let Some(a) = self.m.aliases.get(&n) {
                            n = a.clone();
                        }
                        Callee::F(self.fn_id(&n))
                    }
                    o => Callee::Ind(self.o(o)),
                };
                let args = args.iter().map(|(t, o)| (t.clone(), self.o(o))).collect();
                X::Call { dst: *dst, ret: ret.clone(), callee, args, next: *next }
            }
            I::ExtractValue(d, a, ix) => X::ExtractValue(*d, self.o(a), ix.clone()),
            I::InsertValue(d, t, a, b, ix) => X::InsertValue(*d, t.clone(), self.o(a), self.o(b), ix.clone()),
            I::ExtractElement(d, a, b) => X::ExtractElement(*d, self.o(a), self.o(b)),
            I::InsertElement(d, t, a, b, c) => X::InsertElement(*d, t.clone(), self.o(a), self.o(b), self.o(c)),
            I::Shuffle(d, t, a, b, m) => X::Shuffle(*d, t.clone(), self.o(a), self.o(b), m.clone()),
            I::AtomicRmw(o, d, t, p, v) => X::AtomicRmw(o.clone(), *d, t.clone(), self.o(p), self.o(v)),
            I::CmpXchg(d, t, p, a, b) => X::CmpXchg(*d, t.clone(), self.o(p), self.o(a), self.o(b)),
            I::Freeze(d, a) => X::Freeze(*d, self.o(a)),
            I::Fence => X::Nop,
            I::Br(b) => X::Br(*b),
            I::CondBr(c, a, b) => X::CondBr(self.o(c), *a, *b),
            I::Switch(t, v, d, cs) => X::Switch(t.clone(), self.o(v), *d, cs.clone()),
            I::Ret(v) => X::Ret(v.as_ref().map(|(_, o)| self.o(o))),
            I::Unreachable => X::Unreachable,
            I::Unsupported(s) => X::Unsupported(s.clone()),
        }
    }
    fn resolve(&mut self, id: u32) -> Rs<()> {
        if !matches!(self.fns[id as usize].kind, FKind::Unres) {
            return Ok(());
        }
        let n = self.fns[id as usize].name.clone();
        let k = if let Some(b) = builtin(&n) {
            FKind::Bi(b)
        } else {
            match self.m.func(&n).map_err(Stop::Unsupported)? {
                Some(f) => {
                    self.fns[id as usize].ir_insts = f.blocks.iter().map(|b| b.ins.len() as u32).sum();
                    FKind::Def(Rc::new(self.compile(&f, id)))
                }
                None => {
                    if crate::builtins::known(&n) {
                        FKind::Bi(Bi::Named)
                    } else {
                        FKind::Missing
                    }
                }
            }
        };
        self.fns[id as usize].kind = k;
        Ok(())
    }
    pub fn str_id(&mut self, s: &str) -> u32 {
        if let Some(i) = self.stridx.get(s) {
            return *i;
        }
        let i = self.strs.len() as u32;
        self.strs.push(s.to_string());
        self.stridx.insert(s.to_string(), i);
        i
    }

    // ---------- values ----------
    pub fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(k) => self.ar.cst(*k, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("scalar expected"),
        }
    }
    pub fn v(&self, e: E) -> Val {
        match self.ar.as_const(e) {
            Some(k) => Val::C(k),
            None => Val::S(e),
        }
    }
    pub fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let rw = match op {
                Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe => 1,
                _ => w,
            };
            return Val::C(eval_op(op, rw, w, *x, *y, 0, 0));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.ar.bin(op, x, y);
        self.v(r)
    }
    pub fn not1(&mut self, a: &Val) -> Val {
        match a {
            Val::C(k) => Val::C(k ^ 1),
            Val::S(e) => {
                let r = self.ar.not1(*e);
                self.v(r)
            }
            _ => panic!(),
        }
    }
    pub fn sub(&mut self, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(x.wrapping_sub(*y) & mask(w));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.ar.sub(x, y);
        self.v(r)
    }
    pub fn zext(&mut self, a: &Val, from: u32, to: u32) -> Val {
        match a {
            Val::C(k) => Val::C(*k),
            Val::S(e) => {
                let _ = from;
                let r = self.ar.zext(*e, to);
                self.v(r)
            }
            _ => panic!(),
        }
    }
    pub fn sext(&mut self, a: &Val, from: u32, to: u32) -> Val {
        match a {
            Val::C(k) => Val::C(sext(*k, from) as u128 & mask(to)),
            Val::S(e) => {
                let r = self.ar.sext(*e, to);
                self.v(r)
            }
            _ => panic!(),
        }
    }
    pub fn extract(&mut self, a: &Val, lo: u32, w: u32) -> Val {
        match a {
            Val::C(k) => Val::C((*k >> lo) & mask(w)),
            Val::S(e) => {
                let r = self.ar.extract(*e, lo, w);
                self.v(r)
            }
            _ => panic!(),
        }
    }
    pub fn ite(&mut self, c: &Val, a: &Val, b: &Val, t: &Ty) -> Val {
        match c {
            Val::C(k) => {
                if *k != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::S(ce) => match t {
                Ty::Vec(_, et) | Ty::Arr(_, et) => {
                    let (x, y) = (agg(a), agg(b));
                    let r = (0..x.len()).map(|i| self.ite(c, &x[i], &y[i], et)).collect();
                    Val::A(Rc::new(r))
                }
                Ty::Struct(f, _) => {
                    let (x, y) = (agg(a), agg(b));
                    let r = (0..x.len()).map(|i| self.ite(c, &x[i], &y[i], &f[i])).collect();
                    Val::A(Rc::new(r))
                }
                _ => {
                    let w = t.bits();
                    let x = self.e(a, w);
                    let y = self.e(b, w);
                    let r = self.ar.ite(*ce, x, y);
                    self.v(r)
                }
            },
            _ => panic!(),
        }
    }

    // ---------- solver / forking ----------
    pub fn meval(&self, st: &State, e: E) -> u128 {
        let mut m = st.model.memo.borrow_mut();
        self.ar.eval(e, &st.model.vals, &mut m)
    }
    fn query(&mut self, st: &State, e: E) -> Rs<Option<Rc<ModelS>>> {
        let base = st.model.vals.clone();
        if self.trace_q {
            let f = st.frames.last().unwrap();
            let nm: Vec<String> = st.frames.iter().rev().take(3).map(|f| self.fns[f.f.id as usize].name.to_string()).collect();
            eprintln!("Q {} {}:{}", nm.join(" < "), f.bb, f.ip);
        }
        match self.sv.check(&mut self.ar, &st.cons, e, &base) {
            Res::Sat(m) => Ok(Some(Rc::new(ModelS { vals: m, memo: RefCell::new(FxMap::default()) }))),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Unsupported("solver returned unknown".into())),
        }
    }
    pub fn add_cons_pub(&mut self, st: &mut State, e: E) {
        self.add_cons(st, e)
    }
    fn add_cons(&mut self, st: &mut State, e: E) {
        let n = self.ar.node(e);
        if n.op == Op::And && n.w == 1 {
            self.add_cons(st, n.a);
            self.add_cons(st, n.b);
            return;
        }
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::Eq {
            if let Some(k) = self.ar.as_const(n.b) {
                st.fixed_e.insert(n.a, k);
                let na = self.ar.node(n.a);
                if na.op == Op::Var {
                    st.fixed.insert(na.k as u32, k as u8);
                }
            }
        }
        if !st.cons.contains(&e) {
            st.cons.push(e);
        }
    }
    /// Decide a symbolic condition; forks the other side when feasible. The current instruction is
    /// re-executed by the forked state, so no effect may precede this call.
    pub fn decide(&mut self, st: &mut State, c: &Val) -> Rs<bool> {
        let e = match c {
            Val::C(k) => return Ok(*k & 1 != 0),
            Val::S(e) => *e,
            _ => return Err(Stop::Unsupported("vector condition".into())),
        };
        if let Some(k) = st.fixed_e.get(&e) {
            return Ok(*k != 0);
        }
        let ne = self.ar.not1(e);
        if let Some(k) = self.ar.as_const(e) {
            return Ok(k != 0);
        }
        let cur = self.meval(st, e) != 0;
        let (here, other) = if cur { (e, ne) } else { (ne, e) };
        for x in st.cons.iter().rev() {
            if *x == here {
                return Ok(cur);
            }
        }
        match self.query(st, other)? {
            None => {
                st.fixed_e.insert(e, cur as u128);
                Ok(cur)
            }
            Some(m) => {
                let mut s2 = st.clone();
                s2.model = m;
                s2.depth += 1;
                self.add_cons(&mut s2, other);
                s2.fixed_e.insert(e, !cur as u128);
                self.note_fork(st);
                self.work.push(s2);
                self.add_cons(st, here);
                st.fixed_e.insert(e, cur as u128);
                st.depth += 1;
                Ok(cur)
            }
        }
    }
    fn note_fork(&mut self, st: &State) {
        self.forks += 1;
        let f = st.frames.last().unwrap();
        *self.forksites.entry(((f.f.id as u64) << 32) | ((f.bb as u64) << 12) | f.ip as u64).or_insert(0) += 1;
    }
    /// Pick a concrete value, forking for the remaining ones.
    pub fn concretise(&mut self, st: &mut State, v: &Val, w: u32) -> Rs<u128> {
        let e = match v {
            Val::C(k) => return Ok(*k),
            Val::S(e) => *e,
            _ => return Err(Stop::Unsupported("vector concretise".into())),
        };
        if let Some(k) = st.fixed_e.get(&e) {
            return Ok(*k);
        }
        let n = self.ar.node(e);
        if n.op == Op::Ite {
            if let (Some(p), Some(q)) = (self.ar.as_const(n.b), self.ar.as_const(n.c)) {
                // two values: decide the condition, which other values may share
                let c = self.v(n.a);
                let k = if self.decide(st, &c)? { p } else { q };
                st.fixed_e.insert(e, k);
                return Ok(k);
            }
        }
        let k = self.meval(st, e);
        let kc = self.ar.cst(k, w);
        let eq = self.ar.bin(Op::Eq, e, kc);
        let c = self.v(eq);
        // the model satisfies eq, so decide returns true here and forks the rest
        let r = self.decide(st, &c)?;
        debug_assert!(r);
        st.fixed_e.insert(e, k);
        // a concat of bytes fixes each byte
        self.fix_bytes(st, e, k);
        Ok(k)
    }
    fn fix_bytes(&mut self, st: &mut State, e: E, k: u128) {
        let n = self.ar.node(e);
        match n.op {
            Op::Var => {
                st.fixed.insert(n.k as u32, k as u8);
            }
            Op::Concat => {
                let wl = self.ar.w(n.b);
                if n.w <= 128 {
                    self.fix_bytes(st, n.b, k & mask(wl));
                    self.fix_bytes(st, n.a, k >> wl);
                }
            }
            _ => {}
        }
    }
    /// truth of a comparison of an input float with a constant, if the path decides it
    pub fn decided(&mut self, st: &State, c: &Val) -> Rs<Val> {
        let Val::S(e) = c else { return Ok(c.clone()) };
        let mut x = *e;
        for _ in 0..2 {
            let n = self.ar.node(x);
            if n.op == Op::Xor && n.w == 1 && self.ar.as_const(n.b) == Some(1) {
                x = n.a;
            }
        }
        let n = self.ar.node(x);
        let cmp = matches!(n.op, Op::FLe | Op::FLt) && (self.ar.as_const(n.a).is_some() || self.ar.as_const(n.b).is_some()) || n.op == Op::FNan;
        if !cmp || self.ar.has_fp[x as usize] {
            return Ok(c.clone());
        }
        let now = self.meval(st, *e);
        let other = if now != 0 { self.not1(c) } else { c.clone() };
        Ok(if self.feasible(st, &other)?.is_none() { Val::C(now) } else { c.clone() })
    }
    /// minimum or maximum; one of the operands when the path decides which
    pub fn minmax(&mut self, st: &State, op: Op, w: u32, a: &Val, b: &Val) -> Rs<Val> {
        let r = self.bin(op, w, a, b);
        if let (Val::S(e), true) = (&r, matches!(a, Val::C(_)) || matches!(b, Val::C(_))) {
            if !self.ar.has_fp[*e as usize] {
                let now = self.meval(st, *e);
                for x in [a, b] {
                    let k = match x {
                        Val::C(k) => *k,
                        Val::S(e) => self.meval(st, *e),
                        _ => continue,
                    };
                    if k == now {
                        let same = self.bin(Op::Eq, w, &r, x);
                        let ne = self.not1(&same);
                        if self.feasible(st, &ne)?.is_none() {
                            return Ok(x.clone());
                        }
                    }
                }
            }
        }
        Ok(r)
    }
    /// is there a value for which the condition holds? (no forking)
    pub fn feasible(&mut self, st: &State, c: &Val) -> Rs<Option<Rc<ModelS>>> {
        match c {
            Val::C(0) => Ok(None),
            Val::C(_) => Ok(Some(st.model.clone())),
            Val::S(e) => {
                if self.meval(st, *e) != 0 {
                    return Ok(Some(st.model.clone()));
                }
                self.query(st, *e)
            }
            _ => Err(Stop::Unsupported("vector condition".into())),
        }
    }

    // ---------- memory ----------
    pub fn alloc(&mut self, st: &mut State, size: u64, kind: u8) -> Rs<u64> {
        if size > 0xD000_0000 {
            return Err(Stop::Viol("alloc".into(), format!("allocation of {} bytes", size)));
        }
        let o = Rc::new(Obj { size, data: if size <= 4096 { vec![0; size as usize] } else { Vec::new() }, sym: None, ro: false, kind });
        let limit = if kind == 1 { 0 } else { 256 };
        let id = if st.free.len() > limit {
            let i = st.free.pop_front().unwrap();
            st.objs[i as usize] = Some(o);
            i
        } else {
            st.objs.push(Some(o));
            (st.objs.len() - 1) as u32
        };
        Ok(((id as u64 + 16) << 32) + OFF0)
    }
    pub fn free_obj(&mut self, st: &mut State, addr: u64) -> Rs<()> {
        if addr == 0 {
            return Ok(());
        }
        let id = (addr >> 32).wrapping_sub(16);
        if addr & 0xffff_ffff != OFF0 || id as usize >= st.objs.len() || st.objs[id as usize].is_none() {
            return Err(Stop::Viol("memory".into(), "invalid free".into()));
        }
        st.objs[id as usize] = None;
        st.free.push_back(id as u32);
        Ok(())
    }
    fn slot(&mut self, st: &State, addr: u64, n: u64, write: bool) -> Rs<(u64, u64, Rc<Obj>)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff).wrapping_sub(OFF0);
        let o = if id >= 16 && id - 16 < st.objs.len() as u64 {
            match &st.objs[(id - 16) as usize] {
                Some(o) => o.clone(),
                None => return Err(Stop::Viol("memory".into(), "use after free".into())),
            }
        } else if id >= GSLOT && id < GSLOT + self.gnames.len() as u64 {
            let g = (id - GSLOT) as u32;
            match st.gover.get(&g) {
                Some(o) => o.clone(),
                None => self.gobj(g)?,
            }
        } else {
            return Err(Stop::Viol("memory".into(), format!("wild pointer {:#x}", addr)));
        };
        if off > o.size || n > o.size - off {
            return Err(Stop::Viol("memory".into(), format!("out of bounds access ({} bytes at offset {} of {})", n, off as i64, o.size)));
        }
        if write && o.ro {
            return Err(Stop::Viol("memory".into(), "write to constant".into()));
        }
        Ok((id, off, o))
    }
    fn slot_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> Rs<(u64, &'a mut Obj)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff).wrapping_sub(OFF0);
        if id >= 16 && id - 16 < st.objs.len() as u64 {
            match &mut st.objs[(id - 16) as usize] {
                Some(o) => {
                    if off > o.size || n > o.size - off {
                        return Err(Stop::Viol("memory".into(), format!("out of bounds write ({} bytes at offset {} of {})", n, off as i64, o.size)));
                    }
                    let o = Rc::make_mut(o);
                    o.ensure((off + n) as usize);
                    return Ok((off, o));
                }
                None => return Err(Stop::Viol("memory".into(), "use after free (write)".into())),
            }
        }
        let (_, off, o) = self.slot(st, addr, n, true)?;
        let g = (id - GSLOT) as u32;
        let o = st.gover.entry(g).or_insert(o);
        let o = Rc::make_mut(o);
        o.ensure((off + n) as usize);
        Ok((off, o))
    }
    pub fn load_byte_from(&mut self, st: &State, o: &Obj, i: usize) -> Val {
        if let Some(s) = &o.sym {
            if i < s.len() && s[i] != 0 {
                let e = s[i];
                if let Some(k) = st.fixed_e.get(&e) {
                    return Val::C(*k);
                }
                return Val::S(e);
            }
        }
        Val::C(o.data.get(i).copied().unwrap_or(0) as u128)
    }
    fn load_scalar(&mut self, st: &State, o: &Obj, off: usize, n: usize) -> Val {
        let conc = match &o.sym {
            None => true,
            Some(s) => {
                let end = (off + n).min(s.len());
                off >= end || s[off..end].iter().all(|e| *e == 0)
            }
        };
        if conc {
            let mut b = [0u8; 16];
            let end = (off + n).min(o.data.len());
            if off < end {
                b[..end - off].copy_from_slice(&o.data[off..end]);
            }
            return Val::C(u128::from_le_bytes(b));
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let v = self.load_byte_from(st, o, off + i);
            let e = self.e(&v, 8);
            acc = Some(match acc {
                None => e,
                Some(a) => self.ar.concat(e, a),
            });
        }
        let e = acc.unwrap();
        match st.fixed_e.get(&e) {
            Some(k) => Val::C(*k),
            None => self.v(e),
        }
    }
    fn load_at(&mut self, st: &State, o: &Obj, off: u64, t: &Ty) -> Val {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F16 | Ty::F32 | Ty::F64 => {
                let n = t.store_size() as usize;
                let v = self.load_scalar(st, o, off as usize, n);
                let w = t.bits();
                if w as usize != n * 8 {
                    self.extract(&v, 0, w)
                } else {
                    v
                }
            }
            Ty::Vec(n, et) => {
                if et.bits() % 8 != 0 {
                    // packed bits
                    let total = *n * et.bits();
                    let nb = ((total + 7) / 8) as usize;
                    let v = self.load_scalar(st, o, off as usize, nb);
                    let eb = et.bits();
                    let r = (0..*n).map(|i| self.extract(&v, i * eb, eb)).collect();
                    return Val::A(Rc::new(r));
                }
                let s = et.store_size();
                let r = (0..*n as u64).map(|i| self.load_at(st, o, off + i * s, et)).collect();
                Val::A(Rc::new(r))
            }
            Ty::Arr(n, et) => {
                let s = et.size();
                let r = (0..*n).map(|i| self.load_at(st, o, off + i * s, et)).collect();
                Val::A(Rc::new(r))
            }
            Ty::Struct(f, _) => {
                let r = (0..f.len())
                    .map(|i| {
                        let (fo, ft) = t.field(i);
                        self.load_at(st, o, off + fo, &ft)
                    })
                    .collect();
                Val::A(Rc::new(r))
            }
            _ => Val::C(0),
        }
    }
    pub fn load(&mut self, st: &mut State, addr: &Val, t: &Ty) -> Rs<Val> {
        let n = t.store_size();
        if n == 0 {
            return Ok(zero_val(t));
        }
        let a = match addr {
            Val::C(a) => *a as u64,
            Val::S(e) => {
                if let Some(k) = st.fixed_e.get(e) {
                    *k as u64
                } else {
                    if let Some(v) = self.load_sym(st, *e, t, n)? {
                        return Ok(v);
                    }
                    self.pointer(st, addr, n)?
                }
            }
            _ => return Err(Stop::Unsupported("vector pointer".into())),
        };
        let (_, off, o) = self.slot(st, a, n, false)?;
        Ok(self.load_at(st, &o, off, t))
    }
    /// Read through a symbolic address from one small object: if-then-else chain over the offsets.
    fn load_sym(&mut self, st: &mut State, e: E, t: &Ty, n: u64) -> Rs<Option<Val>> {
        if !matches!(t, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr) {
            return Ok(None);
        }
        let m = self.meval(st, e) as u64;
        let (id, _off, o) = match self.slot(st, m, n, false) {
            Ok(x) => x,
            Err(_) => return Ok(None),
        };
        if o.size > 4096 || (o.kind != 2 && o.size > 256) || !o.ro && o.kind == 2 {
            return Ok(None);
        }
        // only when the address certainly stays inside this object
        let base = (id << 32) + OFF0;
        let bc = self.ar.cst(base as u128, 64);
        let off = self.ar.sub(e, bc);
        let lim = self.ar.cst((o.size - n + 1) as u128, 64);
        let inb = self.ar.bin(Op::Ult, off, lim);
        let outb = self.ar.not1(inb);
        let c = self.v(outb);
        if self.feasible(st, &c)?.is_some() {
            // fork on in-bounds first; the other side is reported as a violation or resolved elsewhere
            let c = self.v(inb);
            if !self.decide(st, &c)? {
                return Ok(None);
            }
        }
        // stride
        let mut stride = 1;
        for s in [n, n / 2, n / 4] {
            if s > 1 {
                let mk = self.ar.cst((s - 1) as u128, 64);
                let lowb = self.ar.bin(Op::And, off, mk);
                let z = self.ar.cst(0, 64);
                let eq = self.ar.bin(Op::Eq, lowb, z);
                let ne = self.ar.not1(eq);
                let c = self.v(ne);
                if self.feasible(st, &c)?.is_none() {
                    stride = s;
                    break;
                }
            }
        }
        let cnt = (o.size - n) / stride + 1;
        if cnt > 512 {
            return Ok(None);
        }
        let vals: Vec<Val> = (0..cnt).map(|i| self.load_at(st, &o, i * stride, t)).collect();
        let w = t.bits();
        // binary decision over the index, built bottom-up
        let lo = 0;
        let hi = cnt as usize;
        let r = self.tree(off, stride, &vals, lo, hi, w);
        Ok(Some(self.v(r)))
    }
    fn tree(&mut self, off: E, stride: u64, vals: &[Val], lo: usize, hi: usize, w: u32) -> E {
        if hi - lo == 1 {
            return self.e(&vals[lo], w);
        }
        let mid = (lo + hi) / 2;
        let a = self.tree(off, stride, vals, lo, mid, w);
        let b = self.tree(off, stride, vals, mid, hi, w);
        if a == b {
            return a;
        }
        let k = self.ar.cst((mid as u64 * stride) as u128, 64);
        let c = self.ar.bin(Op::Ult, off, k);
        self.ar.ite(c, a, b)
    }
    /// Resolve a symbolic pointer to a concrete one (forks).
    pub fn pointer(&mut self, st: &mut State, v: &Val, n: u64) -> Rs<u64> {
        let e = match v {
            Val::C(k) => return Ok(*k as u64),
            Val::S(e) => *e,
            _ => return Err(Stop::Unsupported("vector pointer".into())),
        };
        if let Some(k) = st.fixed_e.get(&e) {
            return Ok(*k as u64);
        }
        let nd = self.ar.node(e);
        if nd.op == Op::Ite {
            let c = self.v(nd.a);
            let r = self.decide(st, &c)?;
            let x = self.v(if r { nd.b } else { nd.c });
            return self.pointer(st, &x, n);
        }
        let m = self.meval(st, e) as u64;
        match self.slot(st, m, n, false) {
            Ok((id, _, o)) => {
                let base = (id << 32) + OFF0;
                let bc = self.ar.cst(base as u128, 64);
                let off = self.ar.sub(e, bc);
                let lim = self.ar.cst((o.size - n + 1) as u128, 64);
                let inb = self.ar.bin(Op::Ult, off, lim);
                let c = self.v(inb);
                self.decide(st, &c)?;
            }
            Err(_) => {}
        }
        Ok(self.concretise(st, v, 64)? as u64)
    }
    fn store_scalar(&mut self, o: &mut Obj, off: usize, v: &Val, n: usize) {
        match v {
            Val::C(k) => {
                o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n] {
                        *x = 0;
                    }
                }
            }
            Val::S(e) => {
                let w = self.ar.w(*e);
                if o.sym.is_none() {
                    o.sym = Some(vec![0; o.data.len()]);
                }
                for i in 0..n {
                    let lo = (i * 8) as u32;
                    let b = if lo + 8 <= w {
                        self.ar.extract(*e, lo, 8)
                    } else {
                        let x = self.ar.extract(*e, lo, w - lo);
                        self.ar.zext(x, 8)
                    };
                    let s = o.sym.as_mut().unwrap();
                    match self.ar.as_const(b) {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            s[off + i] = 0;
                        }
                        None => {
                            o.data[off + i] = 0;
                            s[off + i] = b;
                        }
                    }
                }
            }
            Val::A(_) => panic!("scalar store"),
        }
    }
    fn store_at(&mut self, o: &mut Obj, off: usize, t: &Ty, v: &Val) -> Rs<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F16 | Ty::F32 | Ty::F64 => self.store_scalar(o, off, v, t.store_size() as usize),
            Ty::Vec(_, et) => {
                if et.bits() % 8 != 0 {
                    let x = self.to_bits(v, t)?;
                    self.store_scalar(o, off, &x, t.store_size() as usize);
                    return Ok(());
                }
                let s = et.store_size() as usize;
                for (i, x) in agg(v).iter().enumerate() {
                    self.store_at(o, off + i * s, et, x)?;
                }
            }
            Ty::Arr(_, et) => {
                let s = et.size() as usize;
                for (i, x) in agg(v).iter().enumerate() {
                    self.store_at(o, off + i * s, et, x)?;
                }
            }
            Ty::Struct(f, _) => {
                let a = agg(v);
                for i in 0..f.len() {
                    let (fo, ft) = t.field(i);
                    self.store_at(o, off + fo as usize, &ft, &a[i])?;
                }
            }
            _ => {}
        }
        Ok(())
    }
    pub fn store(&mut self, st: &mut State, addr: &Val, t: &Ty, v: &Val) -> Rs<()> {
        let n = t.store_size();
        if n == 0 {
            return Ok(());
        }
        let a = self.pointer(st, addr, n)?;
        // split borrow: the object is edited in place through a raw pointer kept alive by `st`
        let (off, o) = self.slot_mut(st, a, n)?;
        let o: *mut Obj = o;
        unsafe { self.store_at(&mut *o, off as usize, t, v) }
    }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Rs<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (_, so, src) = self.slot(st, s, n, false)?;
        let (so, nn) = (so as usize, n as usize);
        let (doff, dst) = self.slot_mut(st, d, n)?;
        let doff = doff as usize;
        let end = (so + nn).min(src.data.len());
        let have = end.saturating_sub(so);
        if have > 0 {
            dst.data[doff..doff + have].copy_from_slice(&src.data[so..end]);
        }
        if have < nn {
            for x in &mut dst.data[doff + have..doff + nn] {
                *x = 0;
            }
        }
        let src_sym = match &src.sym {
            Some(s) if have > 0 && s[so..end].iter().any(|e| *e != 0) => Some(s),
            _ => None,
        };
        if let Some(s) = src_sym {
            if dst.sym.is_none() {
                dst.sym = Some(vec![0; dst.data.len()]);
            }
            let ds = dst.sym.as_mut().unwrap();
            ds[doff..doff + have].copy_from_slice(&s[so..end]);
            for x in &mut ds[doff + have..doff + nn] {
                *x = 0;
            }
        } else if let Some(ds) = &mut dst.sym {
            for x in &mut ds[doff..doff + nn] {
                *x = 0;
            }
        }
        Ok(())
    }
    pub fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> Rs<()> {
        if n == 0 {
            return Ok(());
        }
        // zero-filling a fresh large object keeps it lazy
        if let (Val::C(0), true) = (v, n > 4096) {
            let (_, off, o) = self.slot(st, d, n, true)?;
            if off as usize >= o.data.len() {
                return Ok(());
            }
        }
        let (off, o) = self.slot_mut(st, d, n)?;
        let o: *mut Obj = o;
        for i in 0..n as usize {
            unsafe { self.store_scalar(&mut *o, off as usize + i, v, 1) };
        }
        Ok(())
    }
    /// Zero fill of symbolic length: bytes that already are zero need nothing. Returns false when
    /// the object holds other data in the affected range.
    pub fn memset_zero_sym(&mut self, st: &mut State, d: u64, len: &Val, bound: u64) -> Rs<bool> {
        let (_, off, o) = self.slot(st, d, 0, true)?;
        if bound > o.size - off {
            // must stay inside: report the side that does not
            let c = self.bin(Op::Ult, 64, &Val::C((o.size - off) as u128), len);
            if self.decide(st, &c)? {
                return Err(Stop::Viol("memory".into(), "out of bounds memset".into()));
            }
        }
        let end = (off + bound).min(o.data.len() as u64) as usize;
        for i in off as usize..end {
            if o.data[i] != 0 || o.sym.as_ref().map(|s| s[i] != 0).unwrap_or(false) {
                return Ok(false);
            }
        }
        Ok(true)
    }
    pub fn read_bytes(&mut self, st: &mut State, a: u64, n: u64) -> Rs<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (_, off, o) = self.slot(st, a, n, false)?;
        Ok((0..n as usize).map(|i| self.load_byte_from(st, &o, off as usize + i)).collect())
    }
    pub fn obj_size(&mut self, st: &State, a: u64) -> Rs<u64> {
        let (_, _, o) = self.slot(st, a, 0, false)?;
        Ok(o.size)
    }
    /// realloc: copy `n` bytes, only as far as the source is materialised
    pub fn copy_obj(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Rs<()> {
        let (_, _, o) = self.slot(st, s, 0, false)?;
        let have = (o.data.len() as u64).min(n);
        drop(o);
        self.memcpy(st, d, s, have)
    }
    pub fn read_str(&mut self, st: &mut State, a: u64, n: u64) -> Rs<String> {
        let v = self.read_bytes(st, a, n)?;
        Ok(v.iter()
            .map(|x| match x {
                Val::C(k) => *k as u8 as char,
                _ => '?',
            })
            .collect())
    }

    // ---------- vectors ----------
    pub fn to_bits(&mut self, v: &Val, t: &Ty) -> Rs<Val> {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let a = agg(v).clone();
                if n * w > 128 && !a.iter().all(|x| matches!(x, Val::S(_))) && n * w > 4096 {
                    return Err(Stop::Unsupported("wide vector bits".into()));
                }
                if n * w <= 128 && a.iter().all(|x| matches!(x, Val::C(_))) {
                    let mut r = 0u128;
                    for (i, x) in a.iter().enumerate() {
                        if let Val::C(k) = x {
                            r |= (k & mask(w)) << (i as u32 * w);
                        }
                    }
                    return Ok(Val::C(r));
                }
                if n * w > 128 {
                    return Err(Stop::Unsupported("wide vector bits".into()));
                }
                let mut acc: Option<E> = None;
                for x in a.iter() {
                    let e = self.e(x, w);
                    acc = Some(match acc {
                        None => e,
                        Some(p) => self.ar.concat(e, p),
                    });
                }
                Ok(self.v(acc.unwrap()))
            }
            _ => Ok(v.clone()),
        }
    }
    pub fn from_bits(&mut self, v: &Val, t: &Ty) -> Val {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let r = (0..*n).map(|i| self.extract(v, i * w, w)).collect();
                Val::A(Rc::new(r))
            }
            _ => v.clone(),
        }
    }
    fn bitcast(&mut self, v: &Val, a: &Ty, b: &Ty) -> Rs<Val> {
        let total = |t: &Ty| match t {
            Ty::Vec(n, e) => n * e.bits(),
            _ => t.bits(),
        };
        let (ta, _tb) = (total(a), total(b));
        if ta <= 128 {
            let x = self.to_bits(v, a)?;
            return Ok(self.from_bits(&x, b));
        }
        // wide vectors: chunk by the larger element
        if let (Ty::Vec(n1, e1), Ty::Vec(n2, e2)) = (a, b) {
            let (w1, w2) = (e1.bits(), e2.bits());
            let src = agg(v).clone();
            let mut out = vec![];
            if w1 >= w2 && w1 % w2 == 0 {
                for x in src.iter() {
                    for j in 0..w1 / w2 {
                        out.push(self.extract(x, j * w2, w2));
                    }
                }
            } else if w2 % w1 == 0 {
                let k = (w2 / w1) as usize;
                for c in src.chunks(k) {
                    let t = Ty::Vec(k as u32, e1.clone());
                    let x = self.to_bits(&Val::A(Rc::new(c.to_vec())), &t)?;
                    out.push(x);
                }
            } else {
                return Err(Stop::Unsupported("bitcast".into()));
            }
            let _ = (n1, n2);
            return Ok(Val::A(Rc::new(out)));
        }
        Err(Stop::Unsupported("wide bitcast".into()))
    }

    fn binop(&mut self, st: &mut State, op: B, t: &Ty, a: &Val, b: &Val) -> Rs<Val> {
        if let Ty::Vec(n, et) = t {
            let (x, y) = (agg(a).clone(), agg(b).clone());
            let mut r = Vec::with_capacity(*n as usize);
            for i in 0..*n as usize {
                r.push(self.binop(st, op, et, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let w = t.bits();
        let o = match op {
            B::Add => Op::Add,
            B::Sub => return Ok(self.sub(w, a, b)),
            B::Mul => Op::Mul,
            B::UDiv => Op::UDiv,
            B::SDiv => Op::SDiv,
            B::URem => Op::URem,
            B::SRem => Op::SRem,
            B::And => Op::And,
            B::Or => Op::Or,
            B::Xor => Op::Xor,
            B::Shl => Op::Shl,
            B::LShr => Op::LShr,
            B::AShr => Op::AShr,
            B::FAdd => Op::FAdd,
            B::FSub => Op::FSub,
            B::FMul => Op::FMul,
            B::FDiv => Op::FDiv,
            B::FRem => Op::FRem,
        };
        if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            let z = self.bin(Op::Eq, w, b, &Val::C(0));
            if self.decide(st, &z)? {
                return Err(Stop::Viol("ub".into(), "division by zero".into()));
            }
        }
        if o == Op::FRem && !(matches!(a, Val::C(_)) && matches!(b, Val::C(_))) {
            return Err(Stop::Unsupported("symbolic frem".into()));
        }
        if t == &Ty::F16 {
            return Err(Stop::Unsupported("half arithmetic".into()));
        }
        Ok(self.bin(o, w, a, b))
    }
    fn icmp(&mut self, p: Pred, t: &Ty, a: &Val, b: &Val) -> Val {
        if let Ty::Vec(n, et) = t {
            let (x, y) = (agg(a).clone(), agg(b).clone());
            let r = (0..*n as usize).map(|i| self.icmp(p, et, &x[i], &y[i])).collect();
            return Val::A(Rc::new(r));
        }
        let w = t.bits();
        match p {
            Pred::Eq => self.bin(Op::Eq, w, a, b),
            Pred::Ne => {
                let r = self.bin(Op::Eq, w, a, b);
                self.not1(&r)
            }
            Pred::Ult => self.bin(Op::Ult, w, a, b),
            Pred::Ugt => self.bin(Op::Ult, w, b, a),
            Pred::Ule => {
                let r = self.bin(Op::Ult, w, b, a);
                self.not1(&r)
            }
            Pred::Uge => {
                let r = self.bin(Op::Ult, w, a, b);
                self.not1(&r)
            }
            Pred::Slt => self.bin(Op::Slt, w, a, b),
            Pred::Sgt => self.bin(Op::Slt, w, b, a),
            Pred::Sle => {
                let r = self.bin(Op::Slt, w, b, a);
                self.not1(&r)
            }
            Pred::Sge => {
                let r = self.bin(Op::Slt, w, a, b);
                self.not1(&r)
            }
        }
    }
    pub fn isnan(&mut self, w: u32, a: &Val) -> Val {
        match a {
            Val::C(k) => Val::C(eval_op(Op::FNan, 1, w, *k, 0, 0, 0)),
            Val::S(e) => {
                let r = self.ar.un(Op::FNan, *e, 1, 0);
                self.v(r)
            }
            _ => panic!(),
        }
    }
    fn or1(&mut self, a: &Val, b: &Val) -> Val {
        self.bin(Op::Or, 1, a, b)
    }
    fn fcmp(&mut self, p: &str, t: &Ty, a: &Val, b: &Val) -> Rs<Val> {
        if let Ty::Vec(n, et) = t {
            let (x, y) = (agg(a).clone(), agg(b).clone());
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.fcmp(p, et, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let w = t.bits();
        Ok(match p {
            "oeq" => self.bin(Op::FEq, w, a, b),
            "olt" => self.bin(Op::FLt, w, a, b),
            "ole" => self.bin(Op::FLe, w, a, b),
            "ogt" => self.bin(Op::FLt, w, b, a),
            "oge" => self.bin(Op::FLe, w, b, a),
            "une" => {
                let r = self.bin(Op::FEq, w, a, b);
                self.not1(&r)
            }
            "ult" => {
                let r = self.bin(Op::FLe, w, b, a);
                self.not1(&r)
            }
            "ule" => {
                let r = self.bin(Op::FLt, w, b, a);
                self.not1(&r)
            }
            "ugt" => {
                let r = self.bin(Op::FLe, w, a, b);
                self.not1(&r)
            }
            "uge" => {
                let r = self.bin(Op::FLt, w, a, b);
                self.not1(&r)
            }
            "uno" | "ord" | "ueq" | "one" => {
                let x = self.isnan(w, a);
                let y = self.isnan(w, b);
                let u = self.or1(&x, &y);
                match p {
                    "uno" => u,
                    "ord" => self.not1(&u),
                    _ => {
                        let q = self.bin(Op::FEq, w, a, b);
                        let r = self.or1(&u, &q);
                        if p == "ueq" {
                            r
                        } else {
                            self.not1(&r)
                        }
                    }
                }
            }
            "true" => Val::C(1),
            "false" => Val::C(0),
            _ => return Err(Stop::Unsupported(format!("fcmp {}", p))),
        })
    }
    fn cast(&mut self, c: Cast, t: &Ty, v: &Val, tt: &Ty) -> Rs<Val> {
        if c == Cast::BitCast && (matches!(t, Ty::Vec(..)) || matches!(tt, Ty::Vec(..))) {
            return self.bitcast(v, t, tt);
        }
        if let (Ty::Vec(n, e1), Ty::Vec(_, e2)) = (t, tt) {
            let x = agg(v).clone();
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.cast(c, e1, &x[i], e2)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        Ok(match c {
            Cast::Same | Cast::BitCast => v.clone(),
            Cast::Trunc => self.extract(v, 0, tt.bits()),
            Cast::ZExt => self.zext(v, t.bits(), tt.bits()),
            Cast::SExt => self.sext(v, t.bits(), tt.bits()),
            _ => {
                let (wa, w) = (t.bits(), tt.bits());
                if wa == 16 && t == &Ty::F16 || tt == &Ty::F16 {
                    return Err(Stop::Unsupported("half cast".into()));
                }
                let op = match c {
                    Cast::FpExt | Cast::FpTrunc => Op::FCvt,
                    Cast::UiToFp => Op::UToF,
                    Cast::SiToFp => Op::SToF,
                    Cast::FpToUi => Op::FToU,
                    _ => Op::FToS,
                };
                self.fun1(op, wa, w, v, 0)
            }
        })
    }
    pub fn fun1(&mut self, op: Op, wa: u32, w: u32, v: &Val, k: u128) -> Val {
        match v {
            Val::C(x) => Val::C(eval_op(op, w, wa, *x, 0, 0, k)),
            Val::S(e) => {
                let r = self.ar.un(op, *e, w, k);
                self.v(r)
            }
            _ => panic!(),
        }
    }

    // ---------- main loop ----------
    pub fn run(&mut self, entry: &str) {
        let t0 = Instant::now();
        let id = self.fn_id(entry);
        if let Err(e) = self.resolve(id) {
            self.incomplete = Some(format!("{:?}", e));
            return;
        }
        let f = match &self.fns[id as usize].kind {
            FKind::Def(f) => f.clone(),
            _ => {
                self.incomplete = Some(format!("no entry {}", entry));
                return;
            }
        };
        let fr = Frame { loc: vec![Val::C(0); f.nlocals], f, bb: 0, ip: 0, dst: None, inv: None, allocas: vec![] };
        let st = State {
            frames: vec![Rc::new(fr)],
            objs: vec![],
            free: VecDeque::new(),
            gover: FxMap::default(),
            cons: vec![],
            model: Rc::new(ModelS { vals: Rc::new(vec![]), memo: RefCell::new(FxMap::default()) }),
            nvars: 0,
            fixed: FxMap::default(),
            fixed_e: FxMap::default(),
            log: vec![],
            reach: vec![],
            instrs: 0,
            depth: 0,
            stub_fmt: false,
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if t0.elapsed().as_secs_f64() > self.lim.secs {
                self.incomplete = Some(format!("time limit with {} states pending", self.work.len() + 1));
                break;
            }
            if self.paths >= self.lim.paths {
                self.incomplete = Some(format!("path limit with {} states pending", self.work.len() + 1));
                break;
            }
            if !self.viols.is_empty() && self.viol_end.is_none() {
                self.viol_end = Some(t0.elapsed().as_secs_f64() + self.lim.viol_secs);
            }
            if self.viol_end.map_or(false, |e| t0.elapsed().as_secs_f64() > e) {
                self.stopped = true;
                break;
            }
            let r = loop {
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(s) => break s,
                }
                st.instrs += 1;
                self.instrs += 1;
                if self.instrs & 0xffff == 0 {
                    if t0.elapsed().as_secs_f64() > self.lim.secs {
                        self.incomplete = Some(format!("time limit with {} states pending", self.work.len() + 1));
                        self.where_is(&st);
                        break Stop::Infeasible;
                    }
                    if rss_mb() > self.lim.mem_mb {
                        self.incomplete = Some(format!("memory limit with {} states pending", self.work.len() + 1));
                        self.where_is(&st);
                        break Stop::Infeasible;
                    }
                    if self.viol_end.map_or(false, |e| t0.elapsed().as_secs_f64() > e) {
                        self.stopped = true;
                        break Stop::Infeasible;
                    }
                }
                if st.instrs > self.lim.path_instrs {
                    break Stop::Viol("hang".into(), format!("more than {} instructions on one path", self.lim.path_instrs));
                }
            };
            if self.incomplete.is_some() || self.stopped {
                break;
            }
            self.max_depth = self.max_depth.max(st.depth);
            if matches!(r, Stop::Done) {
                self.max_instrs = self.max_instrs.max(st.instrs);
            }
            self.max_vars = self.max_vars.max(st.nvars);
            match r {
                Stop::Done => {
                    self.paths += 1;
                    self.finish(&st);
                }
                Stop::Infeasible => self.paths_infeasible += 1,
                Stop::Viol(k, w) => {
                    self.paths += 1;
                    self.paths_viol += 1;
                    self.violation(&st, &k, &w);
                }
                Stop::Unsupported(s) => {
                    self.paths += 1;
                    let w = self.stack(&st).join(" < ");
                    *self.unsupported.entry(format!("{} @ {}", s, w)).or_insert(0) += 1;
                }
            }
        }
    }
    fn where_is(&self, st: &State) {
        if std::env::var("SYMX_DEBUG").is_ok() {
            eprintln!("at: {}", self.stack(st).join("\n    "));
        }
    }
    pub fn input_of(&self, st: &State, m: &ModelS) -> Vec<u8> {
        (0..st.nvars as usize).map(|i| m.vals.get(i).copied().unwrap_or(0)).collect()
    }
    fn finish(&mut self, st: &State) {
        // deterministic thinning of the recorded paths
        if self.paths % self.sample_stride != 0 {
            return;
        }
        let m = st.model.clone();
        let log = st
            .log
            .iter()
            .map(|(v, _w)| match v {
                Val::C(k) => *k as u64,
                Val::S(e) => self.meval(st, *e) as u64,
                _ => 0,
            })
            .collect();
        let reach = st.reach.iter().map(|i| self.strs[*i as usize].clone()).collect();
        self.samples.push(Sample { input: self.input_of(st, &m), log, reach });
        if self.samples.len() > self.lim.samples {
            self.sample_stride *= 2;
            let mut i = 0;
            self.samples.retain(|_| {
                i += 1;
                i % 2 == 0
            });
        }
    }
    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| crate::demangle(&self.fns[f.f.id as usize].name)).collect()
    }
    pub fn violation(&mut self, st: &State, kind: &str, site: &str) {
        let m = st.model.clone();
        let input = self.input_of(st, &m);
        let stack = self.stack(st);
        // at most three examples per (kind, site)
        let mut n = 0;
        for v in self.viols.iter_mut() {
            if v.kind == kind && v.site == site {
                v.count += 1;
                n += 1;
            }
        }
        if n < 3 {
            self.viols.push(Violation { kind: kind.into(), site: site.into(), input, stack, count: 1 });
        }
    }

    fn val(&self, fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::L(i) => fr.loc[*i as usize].clone(),
            Opd::V(v) => v.clone(),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if self.trace_ins {
            eprintln!("      = {:x?}", v);
        }
        let v = self.known(st, v);
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.loc[d as usize] = v;
        fr.ip += 1;
    }
    /// a value decided earlier on the path is a constant; so is the arm of a decided choice
    fn known(&self, st: &State, v: Val) -> Val {
        if let Val::S(mut e) = v {
            if st.fixed_e.is_empty() {
                return v;
            }
            loop {
                if let Some(k) = st.fixed_e.get(&e) {
                    return Val::C(*k);
                }
                let n = self.ar.node(e);
                if n.op != Op::Ite {
                    return self.v(e);
                }
                match st.fixed_e.get(&n.a) {
                    Some(k) => e = if *k != 0 { n.b } else { n.c },
                    None => return Val::S(e),
                }
            }
        }
        v
    }
    fn jump(&self, st: &mut State, to: u32) -> Rs<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, ins) in &b.phis {
                let mut got = None;
                for (bb, o) in ins {
                    if *bb == from {
                        got = Some(match o {
                            Opd::L(i) => fr.loc[*i as usize].clone(),
                            Opd::V(v) => v.clone(),
                        });
                        break;
                    }
                }
                match got {
                    Some(v) => vals.push((*d, v)),
                    None => return Err(Stop::Unsupported("phi edge".into())),
                }
            }
            for (d, v) in vals {
                fr.loc[d as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }
    fn next(&self, st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
    }

    fn step(&mut self, st: &mut State) -> Rs<()> {
        let fr = st.frames.last().unwrap().clone();
        let f = fr.f.clone();
        let x = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
        if self.trace_ins {
            let mut s = format!("{:?}", x);
            s.truncate(300);
            eprintln!("  [{} bb{} i{}] {}", crate::demangle(&self.fns[f.id as usize].name), fr.bb, fr.ip, s);
        }
        macro_rules! v {
            ($o:expr) => {
                match $o {
                    Opd::L(i) => fr.loc[*i as usize].clone(),
                    Opd::V(v) => v.clone(),
                }
            };
        }
        // The frame is shared with `st` while operands are fetched; release it before writing.
        macro_rules! put {
            ($d:expr, $v:expr) => {{
                let r = $v;
                drop(fr);
                self.set(st, $d, r);
            }};
        }
        match x {
            X::Bin(op, d, t, a, b) => {
                let (a, b) = (v!(a), v!(b));
                drop(fr);
                let r = self.binop(st, *op, t, &a, &b)?;
                self.set(st, *d, r);
            }
            X::ICmp(p, d, t, a, b) => {
                let (a, b) = (v!(a), v!(b));
                put!(*d, self.icmp(*p, t, &a, &b));
            }
            X::FCmp(p, d, t, a, b) => {
                let (a, b) = (v!(a), v!(b));
                put!(*d, self.fcmp(p, t, &a, &b)?);
            }
            X::FNeg(d, t, a) => {
                let a = v!(a);
                let r = match t {
                    Ty::Vec(n, et) => {
                        let w = et.bits();
                        let x = agg(&a).clone();
                        Val::A(Rc::new((0..*n as usize).map(|i| self.bin(Op::Xor, w, &x[i], &Val::C(1 << (w - 1)))).collect()))
                    }
                    _ => {
                        let w = t.bits();
                        self.bin(Op::Xor, w, &a, &Val::C(1 << (w - 1)))
                    }
                };
                put!(*d, r);
            }
            X::Cast(c, d, t, a, tt) => {
                let a = v!(a);
                put!(*d, self.cast(*c, t, &a, tt)?);
            }
            X::Alloca(d, sz, _al, cnt) => {
                let c = v!(cnt);
                drop(fr);
                let n = self.concretise(st, &c, 64)? as u64;
                let a = self.alloc(st, sz * n, 1)?;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push(((a >> 32) - 16) as u32);
                fr.loc[*d as usize] = Val::C(a as u128);
                fr.ip += 1;
            }
            X::Load(d, t, p) => {
                let p = v!(p);
                drop(fr);
                let r = self.load(st, &p, t)?;
                self.set(st, *d, r);
            }
            X::Store(t, a, p) => {
                let (a, p) = (v!(a), v!(p));
                drop(fr);
                self.store(st, &p, t, &a)?;
                self.next(st);
            }
            X::Gep(d, b, off, ix) => {
                let b = v!(b);
                let mut acc = self.bin(Op::Add, 64, &b, &Val::C(*off as u64 as u128));
                for (o, w, s) in ix {
                    let i = v!(o);
                    let i = if *w < 64 { self.sext(&i, *w, 64) } else if *w > 64 { self.extract(&i, 0, 64) } else { i };
                    let m = self.bin(Op::Mul, 64, &i, &Val::C(*s as u128));
                    acc = self.bin(Op::Add, 64, &acc, &m);
                }
                put!(*d, acc);
            }
            X::Select(d, vc, t, c, a, b) => {
                let (c, a, b) = (v!(c), v!(a), v!(b));
                let r = if *vc {
                    let et = match t {
                        Ty::Vec(_, e) => e.clone(),
                        _ => return Err(Stop::Unsupported("select".into())),
                    };
                    let (cc, x, y) = (agg(&c).clone(), agg(&a).clone(), agg(&b).clone());
                    let mut out = Vec::new();
                    for i in 0..cc.len() {
                        let c = self.decided(st, &cc[i])?;
                        out.push(self.ite(&c, &x[i], &y[i], &et));
                    }
                    Val::A(Rc::new(out))
                } else {
                    let c = self.decided(st, &c)?;
                    self.ite(&c, &a, &b, t)
                };
                put!(*d, r);
            }
            X::ExtractValue(d, a, ix) => {
                let mut x = v!(a);
                for i in ix {
                    let y = agg(&x)[*i as usize].clone();
                    x = y;
                }
                put!(*d, x);
            }
            X::InsertValue(d, t, a, b, ix) => {
                let (a, b) = (v!(a), v!(b));
                put!(*d, insert(&a, &b, ix, t));
            }
            X::ExtractElement(d, a, i) => {
                let (a, i) = (v!(a), v!(i));
                drop(fr);
                let k = self.concretise(st, &i, 64)? as usize;
                let r = agg(&a).get(k).cloned().unwrap_or(Val::C(0));
                self.set(st, *d, r);
            }
            X::InsertElement(d, _t, a, b, i) => {
                let (a, b, i) = (v!(a), v!(b), v!(i));
                drop(fr);
                let k = self.concretise(st, &i, 64)? as usize;
                let mut x = (**agg(&a)).clone();
                if k < x.len() {
                    x[k] = b;
                }
                self.set(st, *d, Val::A(Rc::new(x)));
            }
            X::Shuffle(d, t, a, b, m) => {
                let (a, b) = (v!(a), v!(b));
                let (x, y) = (agg(&a), agg(&b));
                let z = match t {
                    Ty::Vec(_, e) => zero_val(e),
                    _ => Val::C(0),
                };
                let r: Vec<Val> = m
                    .iter()
                    .map(|i| {
                        if *i < 0 {
                            z.clone()
                        } else if (*i as usize) < x.len() {
                            x[*i as usize].clone()
                        } else {
                            y[*i as usize - x.len()].clone()
                        }
                    })
                    .collect();
                put!(*d, Val::A(Rc::new(r)));
            }
            X::AtomicRmw(o, d, t, p, v) => {
                let (p, v) = (v!(p), v!(v));
                drop(fr);
                let old = self.load(st, &p, t)?;
                let w = t.bits();
                let nv = match &**o {
                    "xchg" => v,
                    "add" => self.bin(Op::Add, w, &old, &v),
                    "sub" => self.sub(w, &old, &v),
                    "and" => self.bin(Op::And, w, &old, &v),
                    "or" => self.bin(Op::Or, w, &old, &v),
                    "xor" => self.bin(Op::Xor, w, &old, &v),
                    _ => return Err(Stop::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store(st, &p, t, &nv)?;
                self.set(st, *d, old);
            }
            X::CmpXchg(d, t, p, a, b) => {
                let (p, a, b) = (v!(p), v!(a), v!(b));
                drop(fr);
                let old = self.load(st, &p, t)?;
                let eq = self.bin(Op::Eq, t.bits(), &old, &a);
                let nv = self.ite(&eq, &b, &old, t);
                self.store(st, &p, t, &nv)?;
                self.set(st, *d, Val::A(Rc::new(vec![old, eq])));
            }
            X::Freeze(d, a) => {
                let a = v!(a);
                put!(*d, a);
            }
            X::Nop => {
                drop(fr);
                self.next(st)
            }
            X::Br(b) => {
                drop(fr);
                self.jump(st, *b)?
            }
            X::CondBr(c, a, b) => {
                let c = v!(c);
                drop(fr);
                let r = self.decide(st, &c)?;
                self.jump(st, if r { *a } else { *b })?
            }
            X::Switch(t, o, d, cs) => {
                let x = v!(o);
                drop(fr);
                let to = self.switch(st, t, &x, *d, cs)?;
                self.jump(st, to)?
            }
            X::Ret(o) => {
                let r = o.as_ref().map(|o| v!(o));
                drop(fr);
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.objs[*a as usize] = None;
                    st.free.push_front(*a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                match (fr.dst, r) {
                    (Some(d), Some(v)) => self.set(st, d, v),
                    _ => self.next(st),
                }
                if let Some(n) = fr.inv {
                    self.jump(st, n)?;
                }
            }
            X::Unreachable => return Err(Stop::Viol("ub".into(), format!("unreachable in {}", crate::demangle(&self.fns[f.id as usize].name)))),
            X::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
            X::Call { dst, ret, callee, args, next } => {
                let id = match callee {
                    Callee::F(i) => *i,
                    Callee::Ind(o) => {
                        let p = v!(o);
                        let a = self.pointer_fn(st, &p)?;
                        let b = (FSLOT << 32) + OFF0;
                        if a < b || (a - b) % 16 != 0 || (a - b) / 16 >= self.fns.len() as u64 {
                            return Err(Stop::Viol("memory".into(), format!("call of wild pointer {:#x}", a)));
                        }
                        ((a - b) / 16) as u32
                    }
                };
                self.resolve(id)?;
                let kind = if st.stub_fmt && self.fns[id as usize].is_fmt { FKind::Bi(Bi::Format) } else { self.fns[id as usize].kind.clone() };
                match kind {
                    FKind::Def(cf) => {
                        if st.frames.len() > 2000 {
                            return Err(Stop::Viol("stack".into(), format!("call depth above 2000 in {}", crate::demangle(&self.fns[id as usize].name))));
                        }
                        let mut loc = vec![Val::C(0); cf.nlocals];
                        for (i, p) in cf.params.iter().enumerate() {
                            if i < args.len() {
                                loc[*p as usize] = v!(&args[i].1);
                            }
                        }
                        if self.trace {
                            eprintln!("{}{}", " ".repeat(st.frames.len()), crate::demangle(&self.fns[id as usize].name));
                        }
                        let nf = Frame { f: cf, bb: 0, ip: 0, loc, dst: *dst, inv: *next, allocas: vec![] };
                        drop(fr);
                        st.frames.push(Rc::new(nf));
                    }
                    FKind::Bi(b) => {
                        let vals: Vec<Val> = args.iter().map(|(_, o)| v!(o)).collect();
                        drop(fr);
                        let r = self.builtin(st, id, b, ret, &vals, args)?;
                        match (dst, r) {
                            (Some(d), Some(v)) => self.set(st, *d, v),
                            (Some(d), None) => self.set(st, *d, zero_val(ret)),
                            _ => self.next(st),
                        }
                        if let Some(n) = next {
                            self.jump(st, *n)?;
                        }
                    }
                    _ => return Err(Stop::Unsupported(format!("call of {}", self.fns[id as usize].name))),
                }
            }
        }
        Ok(())
    }
    fn pointer_fn(&mut self, st: &mut State, p: &Val) -> Rs<u64> {
        if let Val::S(e) = p {
            let nd = self.ar.node(*e);
            if nd.op == Op::Ite {
                let c = self.v(nd.a);
                let r = self.decide(st, &c)?;
                let x = self.v(if r { nd.b } else { nd.c });
                return self.pointer_fn(st, &x);
            }
        }
        Ok(self.concretise(st, p, 64)? as u64)
    }
    fn switch(&mut self, st: &mut State, t: &Ty, x: &Val, d: u32, cs: &[(u128, u32)]) -> Rs<u32> {
        let w = t.bits();
        let e = match x {
            Val::C(k) => return Ok(cs.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(d)),
            Val::S(e) => *e,
            _ => return Err(Stop::Unsupported("switch".into())),
        };
        let k = match st.fixed_e.get(&e) {
            Some(k) => *k,
            None => self.meval(st, e),
        };
        let to = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(d);
        // condition "same target"
        let mut cond = self.ar.cst(if to == d { 1 } else { 0 }, 1);
        for (ck, cb) in cs {
            if (*cb == to) == (to == d) {
                continue;
            }
            let kc = self.ar.cst(*ck, w);
            let eq = self.ar.bin(Op::Eq, e, kc);
            if to == d {
                let ne = self.ar.not1(eq);
                cond = self.ar.bin(Op::And, cond, ne);
            } else {
                cond = self.ar.bin(Op::Or, cond, eq);
            }
        }
        let c = self.v(cond);
        self.decide(st, &c)?;
        Ok(to)
    }
}

pub fn agg(v: &Val) -> &Rc<Vec<Val>> {
    match v {
        Val::A(a) => a,
        _ => panic!("aggregate expected, got {:?}", v),
    }
}
pub fn zero_val(t: &Ty) -> Val {
    match t {
        Ty::Vec(n, e) => Val::A(Rc::new(vec![zero_val(e); *n as usize])),
        Ty::Arr(n, e) => Val::A(Rc::new(vec![zero_val(e); *n as usize])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero_val).collect())),
        _ => Val::C(0),
    }
}
fn insert(a: &Val, b: &Val, ix: &[u32], t: &Ty) -> Val {
    if ix.is_empty() {
        return b.clone();
    }
    let mut x = match a {
        Val::A(v) => (**v).clone(),
        _ => agg(&zero_val(t)).to_vec(),
    };
    let i = ix[0] as usize;
    let (_, ft) = t.field(i);
    x[i] = insert(&x[i].clone(), b, &ix[1..], &ft);
    Val::A(Rc::new(x))
}

fn builtin(n: &str) -> Option<Bi> {
    if let Some(r) = n.strip_prefix("llvm.") {
        if r.starts_with("memcpy.") || r.starts_with("memmove.") {
            return Some(Bi::Memcpy);
        }
        if r.starts_with("memset.") {
            return Some(Bi::Memset);
        }
        if r.starts_with("lifetime.") || r.starts_with("assume") || r.starts_with("experimental.noalias") || r.starts_with("dbg.") || r.starts_with("donothing") || r.starts_with("invariant.") || r.starts_with("prefetch") || r.starts_with("x86.sse2.pause") {
            return Some(Bi::Nop);
        }
        return Some(Bi::Named);
    }
    if n.starts_with("asm:") {
        return Some(Bi::Named);
    }
    if n.starts_with("_R") && n.contains("_4core9panicking") && n.starts_with("_RNvNtC") {
        return Some(Bi::Panic);
    }
    if n.starts_with("_RNv") && (n.ends_with("3std2io5stdio6__print") || n.ends_with("3std2io5stdio7__eprint") || n.ends_with("5stdio6_print") || n.ends_with("5stdio7_eprint")) {
        return Some(Bi::Nop);
    }
    if n.contains("18handle_alloc_error") && !n.contains("raw_vec") {
        return Some(Bi::Panic);
    }
    None
}
