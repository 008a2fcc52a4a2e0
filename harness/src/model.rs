//! Reference layout: where every byte of a value goes, written from the format's rules alone.
//! A record's own bytes are reserved first; an out-of-line value goes to the first position that
//! is a multiple of its alignment, at or after everything placed so far (data is followed by
//! padding to its own alignment) and past the record that refers to it.

pub enum N {
    /// bytes without a reservation of their own (numbers, text)
    Raw(Vec<u8>),
    /// fields in order, followed by zero padding
    Rec(Vec<N>, usize),
    /// offset relative to itself
    Rel(u64, Option<Box<N>>),
    /// absolute offset of the given width
    Abs(usize, u64, Option<Box<N>>),
    /// offset and tag
    Tag(u64, Option<Box<N>>, u64),
    /// offset and count, 8-aligned elements
    Arr(Vec<N>),
    /// offset and length, 8-aligned bytes
    Buf(Vec<u8>),
}
pub fn le(v: u64, w: usize) -> Vec<u8> {
    v.to_le_bytes()[..w].to_vec()
}
pub fn up(v: u64, n: u64) -> u64 {
    let mut v = v;
    while v % n != 0 {
        v += 1;
    }
    v
}
impl N {
    pub fn size(&self) -> u64 {
        match self {
            N::Raw(b) => b.len() as u64,
            N::Rec(f, p) => f.iter().map(|x| x.size()).sum::<u64>() + *p as u64,
            N::Rel(..) => 8,
            N::Abs(w, ..) => *w as u64,
            N::Tag(..) | N::Arr(_) | N::Buf(_) => 16,
        }
    }
}
pub struct Out {
    pub b: Vec<u8>,
    /// first position not yet taken
    pub next: u64,
}
impl Out {
    fn put(&mut self, at: u64, b: &[u8]) {
        let e = at as usize + b.len();
        if b.is_empty() {
            return;
        }
        if self.b.len() < e {
            self.b.resize(e, 0);
        }
        self.b[at as usize..e].copy_from_slice(b);
    }
    fn child(&mut self, align: u64, n: &N) -> u64 {
        self.next = up(self.next, align);
        let at = self.next;
        self.emit(at, n);
        let end = at + n.size();
        if end > self.next {
            self.next = up(end, align);
        }
        at
    }
    pub fn emit(&mut self, at: u64, n: &N) {
        if !matches!(n, N::Raw(_)) {
            self.next = self.next.max(at + n.size());
        }
        match n {
            N::Raw(b) => self.put(at, b),
            N::Rec(f, pad) => {
                let mut p = at;
                for x in f {
                    self.emit(p, x);
                    p += x.size();
                }
                self.put(p, &vec![0; *pad]);
            }
            N::Rel(a, c) => {
                let v = match c {
                    None => 0,
                    Some(c) => self.child(*a, c) - at,
                };
                self.put(at, &le(v, 8));
            }
            N::Abs(w, a, c) => {
                let v = match c {
                    None => 0,
                    Some(c) => self.child(*a, c),
                };
                self.put(at, &le(v, *w));
            }
            N::Tag(a, c, t) => {
                let v = match c {
                    None => 0,
                    Some(c) => self.child(*a, c) - at,
                };
                self.put(at, &le(v, 8));
                self.put(at + 8, &le(*t, 8));
            }
            N::Arr(e) => {
                self.next = up(self.next, 8);
                if e.is_empty() {
                    self.put(at, &[0; 16]);
                    return;
                }
                let start = self.next;
                self.put(at, &le(start - at, 8));
                self.put(at + 8, &le(e.len() as u64, 8));
                let total: u64 = e.iter().map(|x| x.size()).sum();
                self.next = self.next.max(start + total);
                let mut p = start;
                for x in e {
                    self.emit(p, x);
                    p += x.size();
                }
            }
            N::Buf(d) => {
                self.next = up(self.next, 8);
                if d.is_empty() {
                    self.put(at, &[0; 16]);
                    return;
                }
                let start = self.next;
                self.put(at, &le(start - at, 8));
                self.put(at + 8, &le(d.len() as u64, 8));
                self.put(start, d);
                self.next = start + d.len() as u64;
            }
        }
    }
}
/// the whole output for a value written at `at` with `next` free, and the next free position
pub fn layout(at: u64, next: u64, n: &N) -> (Vec<u8>, u64) {
    let mut o = Out { b: vec![0; at as usize], next };
    o.emit(at, n);
    (o.b, o.next)
}
