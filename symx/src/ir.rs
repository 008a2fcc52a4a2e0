//! Parser for the textual LLVM IR that rustc emits. Function bodies are parsed on first use.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F16,
    F32,
    F64,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Opaque,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    /// bits of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F16 => 16,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16).max(1)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Vec(n, t) => ((*n as u64) * (t.bits() as u64) / 8).next_power_of_two().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// number of bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => ((*n as u64) * (t.bits() as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(_) => align_up(self.store_size(), self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Vec(..) => align_up(self.store_size(), self.align()),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => (t.size() * i as u64, (**t).clone()),
            Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
}

/// Constants; addresses are symbolic names until materialised.
#[derive(Clone, Debug)]
pub enum K {
    Int(u128, u32),
    Agg(Rc<Vec<K>>),
    Bytes(Rc<Vec<u8>>),
    Zero(Ty),
    Undef(Ty),
    Sym(Rc<str>, i64),
}

#[derive(Clone, Debug)]
pub enum O {
    L(u32),
    K(K),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    BitCast,
    FpExt,
    FpTrunc,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    Same,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(B, u32, Ty, O, O),
    ICmp(Rc<str>, u32, Ty, O, O),
    FCmp(Rc<str>, u32, Ty, O, O),
    FNeg(u32, Ty, O),
    Cast(Cast, u32, Ty, O, Ty),
    Alloca(u32, u64, u64, Ty, O),
    Load(u32, Ty, O),
    Store(Ty, O, O),
    Gep(u32, O, i64, Vec<(O, Ty, u64)>),
    Select(u32, Ty, Ty, O, O, O),
    Call { dst: Option<u32>, ret: Ty, callee: O, args: Vec<(Ty, O)>, next: Option<u32> },
    ExtractValue(u32, O, Vec<u32>),
    InsertValue(u32, Ty, O, O, Vec<u32>),
    ExtractElement(u32, O, O),
    InsertElement(u32, Ty, O, O, O),
    Shuffle(u32, Ty, O, O, Vec<i64>),
    AtomicRmw(Rc<str>, u32, Ty, O, O),
    CmpXchg(u32, Ty, O, O, O),
    Freeze(u32, O),
    Fence,
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, O)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(O, u32)>)>,
    pub ins: Vec<I>,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nlocals: usize,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef {
    pub text: (usize, usize),
    pub parsed: RefCell<Option<(Ty, Option<K>, u64, bool)>>,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    type_text: HashMap<String, (usize, usize)>,
    pub globals: HashMap<Rc<str>, GlobalDef>,
    pub defs: HashMap<Rc<str>, (usize, usize, usize)>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    funcs: RefCell<HashMap<Rc<str>, Rc<Func>>>,
}

pub struct Lx<'a> {
    s: &'a [u8],
    pub p: usize,
    m: &'a Module,
    /// inside an instruction: white space does not cross the end of the line
    line: bool,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

pub type R<T> = Result<T, String>;

impl<'a> Lx<'a> {
    pub fn ws(&mut self) {
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c == b' ' || c == b'\t' || (c == b'\n' && !self.line) || c == b'\r' {
                self.p += 1;
            } else if c == b'/' && self.s.get(self.p + 1) == Some(&b'*') {
                while self.p < self.s.len() && !self.s[self.p..].starts_with(b"*/") {
                    self.p += 1;
                }
                self.p = (self.p + 2).min(self.s.len());
            } else if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
            } else {
                break;
            }
        }
    }
    fn ws_line(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
    }
    pub fn eof(&mut self) -> bool {
        self.ws();
        self.p >= self.s.len()
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let e = (self.p + 80).min(self.s.len());
        let st = self.p.saturating_sub(60);
        Err(format!("{} at `{}` >>> `{}`", m, String::from_utf8_lossy(&self.s[st..self.p]), String::from_utf8_lossy(&self.s[self.p..e])))
    }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            // word boundary for alphabetic tokens
            if is_id(*t.as_bytes().last().unwrap()) && t.as_bytes()[0].is_ascii_alphabetic() {
                if let Some(c) = self.s.get(self.p + t.len()) {
                    if is_id(*c) {
                        return false;
                    }
                }
            }
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn want(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            self.err(&format!("expected {}", t))
        }
    }
    pub fn word(&mut self) -> String {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.p]).to_string()
    }
    fn peek_word(&mut self) -> String {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn quoted(&mut self) -> R<Vec<u8>> {
        self.want("\"")?;
        let mut o = Vec::new();
        while self.p < self.s.len() && self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                if self.s[self.p + 1] == b'\\' {
                    o.push(b'\\');
                    self.p += 2;
                    continue;
                }
                o.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                self.p += 3;
            } else {
                o.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        Ok(o)
    }
    /// name after % or @
    fn name(&mut self) -> R<String> {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            Ok(String::from_utf8_lossy(&self.quoted()?).to_string())
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) {
                self.p += 1;
            }
            Ok(String::from_utf8_lossy(&self.s[st..self.p]).to_string())
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn skip_line(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            if self.s[self.p] == b'"' {
                self.p += 1;
                while self.s[self.p] != b'"' {
                    self.p += 1;
                }
            }
            self.p += 1;
        }
    }

    pub fn ty(&mut self) -> R<Ty> {
        self.ws();
        let t = match self.peek() {
            b'[' => {
                self.p += 1;
                let n: u64 = self.word().parse().map_err(|_| "arr".to_string())?;
                self.want("x")?;
                let e = self.ty()?;
                self.want("]")?;
                Ty::Arr(n, Rc::new(e))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let f = self.tylist(b'}')?;
                    self.want(">")?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u32 = self.word().parse().map_err(|_| "vec".to_string())?;
                    self.want("x")?;
                    let e = self.ty()?;
                    self.want(">")?;
                    Ty::Vec(n, Rc::new(e))
                }
            }
            b'{' => {
                self.p += 1;
                Ty::Struct(Rc::new(self.tylist(b'}')?), false)
            }
            b'%' => {
                self.p += 1;
                let n = self.name()?;
                self.m.named_type(&n)?
            }
            _ => {
                let p0 = self.p;
                let w = self.word();
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "half" => Ty::F16,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" | "opaque" | "x86_fp80" | "fp128" | "x86_amx" => Ty::Opaque,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => {
                        self.p = p0;
                        return self.err("type");
                    }
                }
            }
        };
        // address space / function type suffixes do not occur
        Ok(t)
    }
    fn tylist(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        loop {
            if self.peek() == end {
                self.p += 1;
                return Ok(v);
            }
            v.push(self.ty()?);
            self.eat(",");
        }
    }

    pub fn konst(&mut self, t: &Ty) -> R<K> {
        self.ws();
        let c = self.peek();
        match c {
            b'@' => {
                self.p += 1;
                let n = self.name()?;
                return Ok(K::Sym(n.as_str().into(), 0));
            }
            b'c' if self.s[self.p + 1] == b'"' => {
                self.p += 1;
                return Ok(K::Bytes(Rc::new(self.quoted()?)));
            }
            b'[' | b'{' => {
                self.p += 1;
                return self.klist(if c == b'[' { b']' } else { b'}' });
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let k = self.klist(b'}')?;
                    self.want(">")?;
                    return Ok(k);
                }
                return self.klist(b'>');
            }
            _ => {}
        }
        if c == b'-' || c == b'+' || c.is_ascii_digit() {
            let st = self.p;
            if c == b'+' || c == b'-' {
                self.p += 1;
            }
            while self.p < self.s.len() && (is_id(self.s[self.p]) || (self.s[self.p] == b'+' && matches!(self.s[self.p - 1], b'e' | b'E')) || self.s[self.p] == b'(' || (self.s[self.p] == b')' && self.s[st..self.p].contains(&b'('))) {
                self.p += 1;
            }
            let tx = std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string();
            return num(&tx, t).ok_or_else(|| format!("number {} of {:?}", tx, t));
        }
        let p0 = self.p;
        let w = self.word();
        match w.as_str() {
            "true" => Ok(K::Int(1, 1)),
            "false" => Ok(K::Int(0, 1)),
            "null" => Ok(K::Int(0, 64)),
            "zeroinitializer" => Ok(K::Zero(t.clone())),
            "undef" | "poison" => Ok(K::Undef(t.clone())),
            "none" => Ok(K::Zero(t.clone())),
            "splat" => {
                self.want("(")?;
                let et = self.ty()?;
                let k = self.konst(&et)?;
                self.want(")")?;
                match t {
                    Ty::Vec(n, _) => Ok(K::Agg(Rc::new(vec![k; *n as usize]))),
                    _ => Err("splat".into()),
                }
            }
            "getelementptr" => {
                loop {
                    let w = self.peek_word();
                    if w.is_empty() {
                        break;
                    }
                    self.word();
                    if w == "inrange" {
                        self.ws();
                        if self.s[self.p] == b'(' {
                            self.skip_paren();
                            break;
                        }
                    }
                }
                self.want("(")?;
                let mut bt = self.ty()?;
                self.want(",")?;
                let pt = self.ty()?;
                let base = self.konst(&pt)?;
                let mut off: i64 = 0;
                let mut first = true;
                while self.eat(",") {
                    self.eat("inrange");
                    let it = self.ty()?;
                    let k = self.konst(&it)?;
                    let i = match k {
                        K::Int(v, w) => crate::expr::sext(v, w) as i64,
                        K::Zero(_) => 0,
                        _ => return self.err("gep index"),
                    };
                    if first {
                        off += i * bt.size() as i64;
                        first = false;
                    } else {
                        let (o, nt) = match &bt {
                            Ty::Struct(..) => bt.field(i as usize),
                            Ty::Arr(_, t) | Ty::Vec(_, t) => (0, (**t).clone()),
                            _ => return self.err("gep"),
                        };
                        if matches!(bt, Ty::Struct(..)) {
                            off += o as i64;
                        } else {
                            off += i * nt.size() as i64;
                        }
                        bt = nt;
                    }
                }
                self.want(")")?;
                kadd(base, off)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.want("(")?;
                let ft = self.ty()?;
                let k = self.konst(&ft)?;
                self.want("to")?;
                self.ty()?;
                self.want(")")?;
                Ok(k)
            }
            "trunc" => {
                self.want("(")?;
                let ft = self.ty()?;
                let k = self.konst(&ft)?;
                self.want("to")?;
                let tt = self.ty()?;
                self.want(")")?;
                match k {
                    K::Int(v, _) => Ok(K::Int(v & crate::expr::mask(tt.bits()), tt.bits())),
                    _ => Err("const trunc".into()),
                }
            }
            "add" | "sub" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.want("(")?;
                let t1 = self.ty()?;
                let a = self.konst(&t1)?;
                self.want(",")?;
                let t2 = self.ty()?;
                let b = self.konst(&t2)?;
                self.want(")")?;
                let bv = match b {
                    K::Int(v, w2) => crate::expr::sext(v, w2) as i64,
                    _ => return Err("const add".into()),
                };
                kadd(a, if w == "add" { bv } else { -bv })
            }
            "asm" => Err("inline asm".into()),
            _ => {
                // f0x.. style floats
                if w.starts_with("f0x") || w == "inf" || w == "nan" {
                    return num(&w, t).ok_or_else(|| format!("number {}", w));
                }
                self.p = p0;
                self.err("constant")
            }
        }
    }
    fn klist(&mut self, end: u8) -> R<K> {
        let mut v = Vec::new();
        loop {
            if self.peek() == end {
                self.p += 1;
                return Ok(K::Agg(Rc::new(v)));
            }
            let t = self.ty()?;
            let k = self.konst(&t)?;
            // keep the type for layout
            v.push(match (&k, &t) {
                (K::Int(..), _) | (K::Sym(..), _) => k,
                _ => k,
            });
            self.eat(",");
        }
    }
}

fn kadd(k: K, off: i64) -> R<K> {
    Ok(match k {
        K::Sym(n, o) => K::Sym(n, o + off),
        K::Int(v, w) => K::Int((v as i128 + off as i128) as u128 & crate::expr::mask(w), w),
        K::Zero(_) => K::Int(off as i64 as u64 as u128, 64),
        _ => return Err("const offset".into()),
    })
}

fn num(tx: &str, t: &Ty) -> Option<K> {
    let m = crate::expr::mask;
    match t {
        Ty::Int(w) => {
            if let Some(r) = tx.strip_prefix('-') {
                let v: u128 = r.parse().ok()?;
                Some(K::Int((v.wrapping_neg()) & m(*w), *w))
            } else {
                let v: u128 = tx.parse().ok()?;
                Some(K::Int(v & m(*w), *w))
            }
        }
        Ty::Ptr => Some(K::Int(tx.parse().ok()?, 64)),
        Ty::F32 | Ty::F64 | Ty::F16 => {
            let w = t.bits();
            if let Some(h) = tx.strip_prefix("f0x") {
                return Some(K::Int(u128::from_str_radix(h, 16).ok()?, w));
            }
            if let Some(h) = tx.strip_prefix("0xH") {
                return Some(K::Int(u128::from_str_radix(h, 16).ok()?, w));
            }
            if let Some(h) = tx.strip_prefix("0x") {
                // hexadecimal image of a double
                let b = u64::from_str_radix(h, 16).ok()?;
                return Some(match t {
                    Ty::F32 => {
                        let d = f64::from_bits(b);
                        if d.is_nan() {
                            let s = (b >> 63) as u32;
                            K::Int(((s << 31) | 0x7f80_0000 | ((b >> 29) as u32 & 0x7f_ffff)) as u128, 32)
                        } else {
                            K::Int((d as f32).to_bits() as u128, 32)
                        }
                    }
                    _ => K::Int(b as u128, 64),
                });
            }
            let (neg, r) = match tx.as_bytes()[0] {
                b'-' => (true, &tx[1..]),
                b'+' => (false, &tx[1..]),
                _ => (false, tx),
            };
            let d = if r == "inf" {
                f64::INFINITY
            } else if r == "qnan" || r == "nan" {
                f64::NAN
            } else if let Some(x) = r.strip_prefix("nan(0x").or_else(|| r.strip_prefix("snan(0x")) {
                let pl = u64::from_str_radix(x.trim_end_matches(')'), 16).ok()?;
                let s = neg as u64;
                return Some(if w == 32 { K::Int(((s << 31) | 0x7f80_0000 | pl | if tx.contains("snan") { 0 } else { 0x40_0000 }) as u128, 32) } else { K::Int(((s << 63) | 0x7ff0_0000_0000_0000 | pl | if tx.contains("snan") { 0 } else { 1 << 51 }) as u128, 64) });
            } else {
                r.parse::<f64>().ok()?
            };
            let d = if neg { -d } else { d };
            Some(match t {
                Ty::F32 => K::Int((d as f32).to_bits() as u128, 32),
                Ty::F64 => K::Int(d.to_bits() as u128, 64),
                _ => return None,
            })
        }
        _ => None,
    }
}

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut m = Module {
            text: String::new(),
            types: HashMap::new(),
            type_text: HashMap::new(),
            globals: HashMap::new(),
            defs: HashMap::new(),
            aliases: HashMap::new(),
            funcs: RefCell::new(HashMap::new()),
        };
        let b = text.as_bytes();
        let mut p = 0;
        let nl = |p: usize| b[p..].iter().position(|c| *c == b'\n').map(|x| p + x).unwrap_or(b.len());
        let name_at = |p: usize| -> (String, usize) {
            // p just after @ or %
            if b[p] == b'"' {
                let e = p + 1 + b[p + 1..].iter().position(|c| *c == b'"').unwrap();
                (text[p + 1..e].to_string(), e + 1)
            } else {
                let mut e = p;
                while is_id(b[e]) {
                    e += 1;
                }
                (text[p..e].to_string(), e)
            }
        };
        while p < b.len() {
            let e = nl(p);
            match b[p] {
                b'@' => {
                    let (n, q) = name_at(p + 1);
                    let rest = &text[q..e];
                    // " = ... "
                    let body = rest.trim_start_matches(' ').trim_start_matches('=');
                    let st = q + (rest.len() - body.len());
                    let head: Vec<&str> = body.split_whitespace().take(8).collect();
                    if head.contains(&"alias") || head.contains(&"ifunc") {
                        if let Some(i) = body.rfind('@') {
                            let (t, _) = name_at(st + i + 1);
                            m.aliases.insert(n.as_str().into(), t.as_str().into());
                        }
                    } else {
                        m.globals.insert(n.as_str().into(), GlobalDef { text: (st, e), parsed: RefCell::new(None) });
                    }
                    p = e + 1;
                }
                b'%' => {
                    let (n, q) = name_at(p + 1);
                    if let Some(i) = text[q..e].find("type ") {
                        m.type_text.insert(n, (q + i + 5, e));
                    }
                    p = e + 1;
                }
                b'd' if text[p..e].starts_with("define ") => {
                    // name is the first @ outside of parentheses/attribute groups: find "@" followed by name and "("
                    let line = &text[p..e];
                    let at = find_fn_name(line).ok_or("define without name")?;
                    let (n, q) = name_at(p + at + 1);
                    // body ends at "\n}"
                    let end = p + text[p..].find("\n}").ok_or("unterminated function")?;
                    m.defs.insert(n.as_str().into(), (q, e, end));
                    p = end + 3;
                }
                _ => p = e + 1,
            }
        }
        m.text = text;
        let names: Vec<String> = m.type_text.keys().cloned().collect();
        for n in names {
            let t = {
                let mut lx = m.lex(m.type_text[&n].0, m.type_text[&n].1);
                lx.ty()
            };
            if let Ok(t) = t {
                m.types.insert(n, t);
            }
        }
        Ok(m)
    }
    fn lex(&self, a: usize, b: usize) -> Lx<'_> {
        Lx { s: &self.text.as_bytes()[a..b], p: 0, m: self, line: false }
    }
    fn named_type(&self, n: &str) -> R<Ty> {
        if let Some(t) = self.types.get(n) {
            return Ok(t.clone());
        }
        if let Some((a, b)) = self.type_text.get(n) {
            return self.lex(*a, *b).ty();
        }
        Err(format!("type {}", n))
    }
    pub fn global(&self, n: &str) -> R<Option<(Ty, Option<K>, u64, bool)>> {
        let g = match self.globals.get(n) {
            Some(g) => g,
            None => return Ok(None),
        };
        if let Some(x) = g.parsed.borrow().as_ref() {
            return Ok(Some(x.clone()));
        }
        let mut lx = self.lex(g.text.0, g.text.1);
        let mut external = false;
        let ro;
        loop {
            if lx.eat("global") {
                ro = false;
                break;
            }
            if lx.eat("constant") {
                ro = true;
                break;
            }
            lx.ws();
            let w = lx.word();
            if w.is_empty() {
                if lx.peek() == b'(' {
                    lx.skip_paren();
                    continue;
                }
                return lx.err("global");
            }
            if w == "external" || w == "extern_weak" {
                external = true;
            }
        }
        let t = lx.ty()?;
        let k = if external { None } else { Some(lx.konst(&t)?) };
        let rest = &self.text[g.text.0 + lx.p..g.text.1];
        let al = rest.find(", align ").and_then(|i| rest[i + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse::<u64>().ok())).unwrap_or_else(|| t.align());
        let r = (t, k, al, ro);
        *g.parsed.borrow_mut() = Some(r.clone());
        Ok(Some(r))
    }
    pub fn func(&self, n: &str) -> R<Option<Rc<Func>>> {
        if let Some(f) = self.funcs.borrow().get(n) {
            return Ok(Some(f.clone()));
        }
        let (a, _e, end) = match self.defs.get(n) {
            Some(x) => *x,
            None => return Ok(None),
        };
        let f = Rc::new(self.parse_func(n, a, end)?);
        self.funcs.borrow_mut().insert(n.into(), f.clone());
        Ok(Some(f))
    }

    fn parse_func(&self, name: &str, a: usize, end: usize) -> R<Func> {
        let mut lx = self.lex(a, end);
        let mut fp = FP { locals: HashMap::new(), n: 0, blocks: HashMap::new(), bnames: Vec::new() };
        lx.want("(")?;
        let mut params = Vec::new();
        let mut unnamed = 0u32;
        loop {
            if lx.eat(")") {
                break;
            }
            if lx.eat("...") {
                continue;
            }
            lx.ty()?;
            // attributes until %name or , or )
            let mut nm = None;
            loop {
                match lx.peek() {
                    b',' | b')' => break,
                    b'%' => {
                        lx.p += 1;
                        nm = Some(lx.name()?);
                    }
                    b'(' => lx.skip_paren(),
                    b'"' => {
                        lx.quoted()?;
                        if lx.peek() == b'=' {
                            lx.p += 1;
                            lx.quoted()?;
                        }
                    }
                    _ => {
                        if lx.word().is_empty() {
                            return lx.err("param attr");
                        }
                    }
                }
            }
            let nm = nm.unwrap_or_else(|| {
                let s = unnamed.to_string();
                unnamed += 1;
                s
            });
            if let Ok(k) = nm.parse::<u32>() {
                unnamed = unnamed.max(k + 1);
            }
            params.push(fp.local(&nm));
            lx.eat(",");
        }
        // to the opening brace at end of line
        lx.skip_line();
        let mut blocks: Vec<Option<Block>> = Vec::new();
        let mut cur: Option<(u32, Block)> = None;
        loop {
            if lx.eof() {
                break;
            }
            // label?
            let p0 = lx.p;
            let lab = if lx.peek() == b'"' {
                let q = lx.quoted()?;
                if lx.p < lx.s.len() && lx.s[lx.p] == b':' {
                    Some(String::from_utf8_lossy(&q).to_string())
                } else {
                    None
                }
            } else {
                let w = lx.word();
                if !w.is_empty() && lx.p < lx.s.len() && lx.s[lx.p] == b':' {
                    Some(w)
                } else {
                    None
                }
            };
            if let Some(l) = lab {
                lx.skip_line();
                if let Some((i, b)) = cur.take() {
                    put(&mut blocks, i, b);
                }
                let i = fp.block(&l);
                cur = Some((i, Block { name: l, phis: vec![], ins: vec![] }));
                continue;
            }
            lx.p = p0;
            if cur.is_none() {
                // unnamed entry block gets the next number
                let l = unnamed.to_string();
                let i = fp.block(&l);
                cur = Some((i, Block { name: l, phis: vec![], ins: vec![] }));
            }
            let b = &mut cur.as_mut().unwrap().1;
            let line_start = lx.p;
            lx.line = true;
            let r = parse_ins(&mut lx, &mut fp, b);
            lx.line = false;
            match r {
                Ok(()) => {}
                Err(e) => {
                    lx.p = line_start;
                    // skip the instruction (possibly multi-line): line by line until next starts plausibly
                    lx.skip_line();
                    b.ins.push(I::Unsupported(e));
                }
            }
            lx.skip_line();
        }
        if let Some((i, b)) = cur.take() {
            put(&mut blocks, i, b);
        }
        let mut out = Vec::new();
        for (i, n) in fp.bnames.iter().enumerate() {
            out.push(match blocks.get_mut(i).and_then(|b| b.take()) {
                Some(b) => b,
                None => Block { name: n.clone(), phis: vec![], ins: vec![I::Unsupported(format!("missing block {}", n))] },
            });
        }
        Ok(Func { name: name.into(), params, nlocals: fp.n as usize, blocks: out })
    }
}

fn put(v: &mut Vec<Option<Block>>, i: u32, b: Block) {
    while v.len() <= i as usize {
        v.push(None);
    }
    v[i as usize] = Some(b);
}

fn find_fn_name(line: &str) -> Option<usize> {
    let b = line.as_bytes();
    let mut d = 0;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'(' => d += 1,
            b')' => d -= 1,
            b'@' if d == 0 => return Some(i),
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
            }
            _ => {}
        }
        i += 1;
    }
    None
}

struct FP {
    locals: HashMap<String, u32>,
    n: u32,
    blocks: HashMap<String, u32>,
    bnames: Vec<String>,
}
impl FP {
    fn local(&mut self, n: &str) -> u32 {
        if let Some(x) = self.locals.get(n) {
            return *x;
        }
        let i = self.n;
        self.n += 1;
        self.locals.insert(n.to_string(), i);
        i
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(x) = self.blocks.get(n) {
            return *x;
        }
        let i = self.bnames.len() as u32;
        self.blocks.insert(n.to_string(), i);
        self.bnames.push(n.to_string());
        i
    }
}

fn opnd(lx: &mut Lx, fp: &mut FP, t: &Ty) -> R<O> {
    if lx.peek() == b'%' {
        lx.p += 1;
        let n = lx.name()?;
        return Ok(O::L(fp.local(&n)));
    }
    Ok(O::K(lx.konst(t)?))
}
fn tyop(lx: &mut Lx, fp: &mut FP) -> R<(Ty, O)> {
    let t = lx.ty()?;
    let o = opnd(lx, fp, &t)?;
    Ok((t, o))
}
fn label(lx: &mut Lx, fp: &mut FP) -> R<u32> {
    lx.want("label")?;
    lx.want("%")?;
    let n = lx.name()?;
    Ok(fp.block(&n))
}
fn flags(lx: &mut Lx, set: &[&str]) {
    loop {
        let w = lx.peek_word();
        if set.contains(&w.as_str()) {
            lx.word();
            if lx.p < lx.s.len() && lx.s[lx.p] == b'(' && (w == "inrange" || w == "syncscope") {
                lx.skip_paren();
            }
        } else {
            break;
        }
    }
}
const FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "weak", "inrange"];

fn parse_ins(lx: &mut Lx, fp: &mut FP, blk: &mut Block) -> R<()> {
    let mut dst = None;
    if lx.peek() == b'%' {
        lx.p += 1;
        let n = lx.name()?;
        dst = Some(fp.local(&n));
        lx.want("=")?;
    }
    let d = dst.unwrap_or(u32::MAX);
    let op = lx.word();
    let bop = match op.as_str() {
        "add" => Some(B::Add),
        "sub" => Some(B::Sub),
        "mul" => Some(B::Mul),
        "udiv" => Some(B::UDiv),
        "sdiv" => Some(B::SDiv),
        "urem" => Some(B::URem),
        "srem" => Some(B::SRem),
        "and" => Some(B::And),
        "or" => Some(B::Or),
        "xor" => Some(B::Xor),
        "shl" => Some(B::Shl),
        "lshr" => Some(B::LShr),
        "ashr" => Some(B::AShr),
        "fadd" => Some(B::FAdd),
        "fsub" => Some(B::FSub),
        "fmul" => Some(B::FMul),
        "fdiv" => Some(B::FDiv),
        "frem" => Some(B::FRem),
        _ => None,
    };
    if let Some(bo) = bop {
        flags(lx, FLAGS);
        let (t, a) = tyop(lx, fp)?;
        lx.want(",")?;
        let b = opnd(lx, fp, &t)?;
        blk.ins.push(I::Bin(bo, d, t, a, b));
        return Ok(());
    }
    let cast = match op.as_str() {
        "trunc" => Some(Cast::Trunc),
        "zext" => Some(Cast::ZExt),
        "sext" => Some(Cast::SExt),
        "bitcast" => Some(Cast::BitCast),
        "fpext" => Some(Cast::FpExt),
        "fptrunc" => Some(Cast::FpTrunc),
        "uitofp" => Some(Cast::UiToFp),
        "sitofp" => Some(Cast::SiToFp),
        "fptoui" => Some(Cast::FpToUi),
        "fptosi" => Some(Cast::FpToSi),
        "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Some(Cast::Same),
        _ => None,
    };
    if let Some(c) = cast {
        flags(lx, FLAGS);
        let (t, a) = tyop(lx, fp)?;
        lx.want("to")?;
        let tt = lx.ty()?;
        let c = if c == Cast::Same {
            let (x, y) = (t.bits(), tt.bits());
            if x == y {
                Cast::Same
            } else if x > y {
                Cast::Trunc
            } else {
                Cast::ZExt
            }
        } else {
            c
        };
        blk.ins.push(I::Cast(c, d, t, a, tt));
        return Ok(());
    }
    match op.as_str() {
        "icmp" | "fcmp" => {
            flags(lx, FLAGS);
            let pred: Rc<str> = lx.word().as_str().into();
            let (t, a) = tyop(lx, fp)?;
            lx.want(",")?;
            let b = opnd(lx, fp, &t)?;
            blk.ins.push(if op == "icmp" { I::ICmp(pred, d, t, a, b) } else { I::FCmp(pred, d, t, a, b) });
        }
        "fneg" => {
            flags(lx, FLAGS);
            let (t, a) = tyop(lx, fp)?;
            blk.ins.push(I::FNeg(d, t, a));
        }
        "alloca" => {
            lx.eat("inalloca");
            let t = lx.ty()?;
            let mut al = t.align();
            let mut cnt = O::K(K::Int(1, 64));
            let mut ct = Ty::Int(64);
            while lx.eat(",") {
                if lx.eat("align") {
                    al = lx.word().parse().map_err(|_| "align".to_string())?;
                } else if lx.peek() == b'!' {
                    break;
                } else {
                    let (t2, c) = tyop(lx, fp)?;
                    ct = t2;
                    cnt = c;
                }
            }
            blk.ins.push(I::Alloca(d, t.size(), al, ct, cnt));
        }
        "load" => {
            flags(lx, FLAGS);
            let t = lx.ty()?;
            lx.want(",")?;
            let (_, p) = tyop(lx, fp)?;
            blk.ins.push(I::Load(d, t, p));
        }
        "store" => {
            flags(lx, FLAGS);
            let (t, v) = tyop(lx, fp)?;
            lx.want(",")?;
            let (_, p) = tyop(lx, fp)?;
            blk.ins.push(I::Store(t, v, p));
        }
        "getelementptr" => {
            flags(lx, FLAGS);
            let mut bt = lx.ty()?;
            lx.want(",")?;
            let (_, base) = tyop(lx, fp)?;
            let mut off = 0i64;
            let mut idx = Vec::new();
            let mut first = true;
            loop {
                lx.ws_line();
                if lx.p >= lx.s.len() || lx.s[lx.p] != b',' {
                    break;
                }
                let save = lx.p;
                lx.p += 1;
                if lx.peek() == b'!' {
                    lx.p = save;
                    break;
                }
                let (it, io) = tyop(lx, fp)?;
                let scale;
                if first {
                    scale = bt.size();
                    first = false;
                } else {
                    match &bt.clone() {
                        Ty::Struct(..) => {
                            let i = match &io {
                                O::K(K::Int(v, _)) => *v as usize,
                                O::K(K::Zero(_)) => 0,
                                _ => return Err("gep struct index".into()),
                            };
                            let (o, nt) = bt.field(i);
                            off += o as i64;
                            bt = nt;
                            continue;
                        }
                        Ty::Arr(_, t) | Ty::Vec(_, t) => {
                            scale = t.size();
                            bt = (**t).clone();
                        }
                        _ => return Err("gep type".into()),
                    }
                }
                match &io {
                    O::K(K::Int(v, w)) => off += crate::expr::sext(*v, *w) as i64 * scale as i64,
                    O::K(K::Zero(_)) => {}
                    _ => {
                        if matches!(it, Ty::Vec(..)) {
                            return Err("vector gep".into());
                        }
                        idx.push((io, it, scale))
                    }
                }
            }
            blk.ins.push(I::Gep(d, base, off, idx));
        }
        "select" => {
            flags(lx, FLAGS);
            let (ct, c) = tyop(lx, fp)?;
            lx.want(",")?;
            let (t, a) = tyop(lx, fp)?;
            lx.want(",")?;
            let (_, b) = tyop(lx, fp)?;
            blk.ins.push(I::Select(d, ct, t, c, a, b));
        }
        "phi" => {
            flags(lx, FLAGS);
            let t = lx.ty()?;
            let mut v = Vec::new();
            loop {
                lx.want("[")?;
                let o = opnd(lx, fp, &t)?;
                lx.want(",")?;
                lx.want("%")?;
                let n = lx.name()?;
                lx.want("]")?;
                v.push((o, fp.block(&n)));
                lx.ws_line();
                if lx.p < lx.s.len() && lx.s[lx.p] == b',' {
                    let save = lx.p;
                    lx.p += 1;
                    if lx.peek() == b'[' {
                        continue;
                    }
                    lx.p = save;
                }
                break;
            }
            blk.phis.push((d, t, v));
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" {
                lx.want("call")?;
            }
            // fast-math flags, calling convention, return attributes
            loop {
                let p0 = lx.p;
                let c = lx.peek();
                if c == b'[' || c == b'<' || c == b'{' || c == b'%' {
                    break;
                }
                let w = lx.word();
                if w.is_empty() {
                    return lx.err("call");
                }
                let isty = matches!(w.as_str(), "void" | "ptr" | "half" | "float" | "double") || (w.starts_with('i') && w[1..].parse::<u32>().is_ok());
                if isty {
                    lx.p = p0;
                    break;
                }
                if lx.p < lx.s.len() && lx.s[lx.p] == b'(' {
                    lx.skip_paren();
                } else if matches!(w.as_str(), "align" | "cc" | "addrspace") {
                    lx.word();
                }
            }
            let ret = lx.ty()?;
            // function type for varargs
            if lx.peek() == b'(' {
                lx.skip_paren();
            }
            if lx.peek_word() == "asm" {
                // inline assembly: keep the text as callee name
                let st = lx.p;
                lx.word();
                loop {
                    let w = lx.peek_word();
                    if w.is_empty() {
                        break;
                    }
                    lx.word();
                }
                lx.quoted()?;
                lx.want(",")?;
                lx.quoted()?;
                let tx = String::from_utf8_lossy(&lx.s[st..lx.p]).to_string();
                let args = call_args(lx, fp)?;
                blk.ins.push(I::Call { dst, ret, callee: O::K(K::Sym(format!("asm:{}", tx).as_str().into(), 0)), args, next: None });
                return Ok(());
            }
            let callee = opnd(lx, fp, &Ty::Ptr)?;
            let args = call_args(lx, fp)?;
            let mut next = None;
            if op == "invoke" {
                lx.line = false;
                // attributes until "to label"
                loop {
                    if lx.eat("to") {
                        break;
                    }
                    match lx.peek() {
                        b'#' => {
                            lx.p += 1;
                            lx.word();
                        }
                        b'[' => {
                            while lx.s[lx.p] != b']' {
                                lx.p += 1;
                            }
                            lx.p += 1;
                        }
                        b'(' => lx.skip_paren(),
                        b'"' => {
                            lx.quoted()?;
                        }
                        b'=' => lx.p += 1,
                        _ => {
                            if lx.word().is_empty() {
                                return lx.err("invoke");
                            }
                        }
                    }
                }
                next = Some(label(lx, fp)?);
                lx.want("unwind")?;
                label(lx, fp)?;
            }
            blk.ins.push(I::Call { dst, ret, callee, args, next });
        }
        "extractvalue" => {
            let (_, a) = tyop(lx, fp)?;
            let mut ix = Vec::new();
            idxlist(lx, &mut ix)?;
            blk.ins.push(I::ExtractValue(d, a, ix));
        }
        "insertvalue" => {
            let (t, a) = tyop(lx, fp)?;
            lx.want(",")?;
            let (_, b) = tyop(lx, fp)?;
            let mut ix = Vec::new();
            idxlist(lx, &mut ix)?;
            blk.ins.push(I::InsertValue(d, t, a, b, ix));
        }
        "extractelement" => {
            let (_, a) = tyop(lx, fp)?;
            lx.want(",")?;
            let (_, b) = tyop(lx, fp)?;
            blk.ins.push(I::ExtractElement(d, a, b));
        }
        "insertelement" => {
            let (t, a) = tyop(lx, fp)?;
            lx.want(",")?;
            let (_, b) = tyop(lx, fp)?;
            lx.want(",")?;
            let (_, c) = tyop(lx, fp)?;
            blk.ins.push(I::InsertElement(d, t, a, b, c));
        }
        "shufflevector" => {
            let (t, a) = tyop(lx, fp)?;
            lx.want(",")?;
            let (_, b) = tyop(lx, fp)?;
            lx.want(",")?;
            let (mt, m) = tyop(lx, fp)?;
            let n = match mt {
                Ty::Vec(n, _) => n,
                _ => return Err("shuffle".into()),
            };
            let mask = match m {
                O::K(K::Agg(v)) => v
                    .iter()
                    .map(|k| match k {
                        K::Int(x, _) => *x as i64,
                        K::Zero(_) => 0,
                        _ => -1,
                    })
                    .collect(),
                O::K(K::Zero(_)) => vec![0; n as usize],
                O::K(K::Undef(_)) => vec![-1; n as usize],
                _ => return Err("shuffle mask".into()),
            };
            blk.ins.push(I::Shuffle(d, t, a, b, mask));
        }
        "atomicrmw" => {
            flags(lx, FLAGS);
            let o: Rc<str> = lx.word().as_str().into();
            let (_, p) = tyop(lx, fp)?;
            lx.want(",")?;
            let (t, v) = tyop(lx, fp)?;
            blk.ins.push(I::AtomicRmw(o, d, t, p, v));
        }
        "cmpxchg" => {
            flags(lx, FLAGS);
            let (_, p) = tyop(lx, fp)?;
            lx.want(",")?;
            let (t, a) = tyop(lx, fp)?;
            lx.want(",")?;
            let (_, b) = tyop(lx, fp)?;
            blk.ins.push(I::CmpXchg(d, t, p, a, b));
        }
        "freeze" => {
            let (_, a) = tyop(lx, fp)?;
            blk.ins.push(I::Freeze(d, a));
        }
        "fence" => blk.ins.push(I::Fence),
        "br" => {
            if lx.peek_word() == "label" {
                let l = label(lx, fp)?;
                blk.ins.push(I::Br(l));
            } else {
                let (_, c) = tyop(lx, fp)?;
                lx.want(",")?;
                let a = label(lx, fp)?;
                lx.want(",")?;
                let b = label(lx, fp)?;
                blk.ins.push(I::CondBr(c, a, b));
            }
        }
        "switch" => {
            let (t, v) = tyop(lx, fp)?;
            lx.want(",")?;
            let d = label(lx, fp)?;
            lx.want("[")?;
            lx.line = false;
            let mut cs = Vec::new();
            while !lx.eat("]") {
                let ct = lx.ty()?;
                let k = match lx.konst(&ct)? {
                    K::Int(v, _) => v,
                    K::Zero(_) => 0,
                    _ => return Err("switch case".into()),
                };
                lx.want(",")?;
                let l = label(lx, fp)?;
                cs.push((k, l));
            }
            blk.ins.push(I::Switch(t, v, d, cs));
        }
        "ret" => {
            if lx.peek_word() == "void" {
                blk.ins.push(I::Ret(None));
            } else {
                let (t, v) = tyop(lx, fp)?;
                blk.ins.push(I::Ret(Some((t, v))));
            }
        }
        "unreachable" => blk.ins.push(I::Unreachable),
        "landingpad" | "resume" | "catch" | "filter" | "cleanup" => {
            blk.ins.push(I::Unsupported(op));
            // landingpad clauses may follow on the next lines
            loop {
                lx.skip_line();
                let p = lx.p;
                lx.ws();
                let w = lx.peek_word();
                if w == "cleanup" || w == "catch" || w == "filter" {
                    continue;
                }
                lx.p = p;
                break;
            }
            if lx.p > 0 {
                // leave at end of line
            }
        }
        _ => return Err(format!("instruction {}", op)),
    }
    Ok(())
}

fn idxlist(lx: &mut Lx, ix: &mut Vec<u32>) -> R<()> {
    loop {
        lx.ws_line();
        if lx.p >= lx.s.len() || lx.s[lx.p] != b',' {
            return Ok(());
        }
        let save = lx.p;
        lx.p += 1;
        if lx.peek() == b'!' {
            lx.p = save;
            return Ok(());
        }
        let w = lx.word();
        ix.push(w.parse().map_err(|_| format!("index {}", w))?);
    }
}

fn call_args(lx: &mut Lx, fp: &mut FP) -> R<Vec<(Ty, O)>> {
    lx.want("(")?;
    let mut v = Vec::new();
    loop {
        if lx.eat(")") {
            return Ok(v);
        }
        if lx.peek_word() == "metadata" {
            // skip to , or )
            lx.word();
            while lx.peek() != b',' && lx.peek() != b')' {
                if lx.peek() == b'(' {
                    lx.skip_paren();
                } else {
                    lx.p += 1;
                }
            }
            lx.eat(",");
            continue;
        }
        let t = lx.ty()?;
        // attributes
        loop {
            let c = lx.peek();
            if !c.is_ascii_alphabetic() && c != b'"' {
                break;
            }
            if c == b'"' {
                lx.quoted()?;
                if lx.peek() == b'=' {
                    lx.p += 1;
                    lx.quoted()?;
                }
                continue;
            }
            let w = lx.peek_word();
            let isval = matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "none" | "trunc" | "bitcast" | "sub" | "add" | "ptrtoaddr")
                || w.starts_with("f0x")
                || (c == b'c' && lx.s[lx.p + 1] == b'"');
            if isval {
                break;
            }
            lx.word();
            if lx.p < lx.s.len() && lx.s[lx.p] == b'(' {
                lx.skip_paren();
            } else if w == "align" {
                lx.word();
            }
        }
        let o = opnd(lx, fp, &t)?;
        v.push((t, o));
        lx.eat(",");
    }
}
