//! W01, L01..L04: the building blocks every file is made of.
use crate::model::{layout, le, N};
use crate::rec::Rec;
use crate::vp;
use binrw::{BinRead, BinReaderExt};
use ssbh_lib::*;
use ssbh_write::SsbhWrite;
use std::io::{Cursor, Seek, SeekFrom};

fn text(n: usize) -> Vec<u8> {
    let b = vp::bytes(n);
    let mut bad = 0u8;
    for c in &b {
        bad |= (*c == 0) as u8;
    }
    vp::assume(bad == 0);
    b
}
fn s_node(b: &[u8], n: usize) -> N {
    N::Raw(if b.is_empty() { vec![0; n] } else { [b, &[0]].concat() })
}
fn str_node(b: &[u8], n: usize) -> N {
    N::Rel(n as u64, Some(Box::new(s_node(b, n))))
}

/// write `v` at `at` with the given next free position; compare with the reference layout
fn agrees<T: SsbhWrite>(v: &T, n: &N, at: u64, next: u64, sized: bool) -> Vec<u8> {
    let mut w = Rec::default();
    w.data.resize(at as usize, 0);
    w.cover.resize(at as usize, 0);
    w.pos = at as usize;
    let mut dp = next;
    vp::check(v.ssbh_write(&mut w, &mut dp).is_ok(), "write");
    let (b, free) = layout(at, next, n);
    vp::log_bytes(&w.data);
    vp::check(w.pos as u64 == at + n.size(), "inline-size");
    if sized {
        vp::check(v.size_in_bytes() == n.size(), "declared-size");
    }
    vp::check(!w.twice, "written-twice");
    vp::check(vp::same(&b, &w.data), "layout");
    vp::check(dp >= at + n.size() || matches!(n, N::Raw(_)), "reserved");
    vp::check(dp == free, "next-free");
    vp::reach("laid-out");
    b
}
fn back<T: SsbhWrite + PartialEq>(v: &T, b: &[u8], at: u64, size: u64)
where
    T: for<'a> BinRead<Args<'a> = ()>,
{
    let mut r = Cursor::new(b);
    r.seek(SeekFrom::Start(at)).unwrap();
    match r.read_le::<T>() {
        Ok(w) => {
            vp::check(w == *v, "equal");
            vp::check(r.position() == at + size, "reader-position");
            vp::reach("read-back");
        }
        Err(_) => vp::fail("read"),
    }
}

// ---- W01 -------------------------------------------------------------------------------------
#[cfg(feature = "w01")]
pub mod w01 {
    use super::*;
    use std::num::*;

    #[derive(SsbhWrite, PartialEq)]
    struct Named {
        a: u8,
        b: u16,
        c: u32,
        d: u64,
        e: i16,
        f: f32,
        g: i8,
        h: f64,
    }
    #[derive(SsbhWrite)]
    struct Tuple(u16, u8, [u16; 3]);
    #[derive(SsbhWrite)]
    struct Pad {
        a: u8,
        #[ssbhwrite(pad_after = 3)]
        b: u8,
        c: u16,
    }
    #[derive(SsbhWrite)]
    #[ssbhwrite(pad_after = 5)]
    struct PadAll(#[ssbhwrite(pad_after = 2)] u8, u32);
    #[derive(SsbhWrite)]
    #[ssbhwrite(magic = b"xyz", pad_after = 2)]
    struct Magic {
        a: u16,
    }
    #[derive(SsbhWrite)]
    #[ssbhwrite(magic = b"TU")]
    struct MagicTuple(u16);
    #[derive(SsbhWrite)]
    #[ssbhwrite(magic = b"EN")]
    enum MagicEnum {
        A(u16),
    }
    #[derive(SsbhWrite, Clone, Copy)]
    #[ssbhwrite(repr(u16))]
    #[allow(dead_code)]
    enum Repr16 {
        A = 3,
        B = 0x1234,
    }
    #[derive(SsbhWrite, Clone, Copy)]
    #[ssbhwrite(repr(u16))]
    #[ssbhwrite(magic = b"R", pad_after = 3)]
    #[allow(dead_code)]
    enum ReprPad {
        A = 1,
        B = 0xfe01,
    }
    #[derive(SsbhWrite, Clone, Copy)]
    #[ssbhwrite(repr(u64))]
    enum Repr64 {
        A = 0x0102_0304_0506_0708,
    }
    #[derive(SsbhWrite)]
    #[ssbhwrite(pad_after = 1)]
    #[allow(dead_code)]
    enum Data {
        #[ssbhwrite(pad_after = 4)]
        A(u8, u16),
        B {
            x: u32,
            #[ssbhwrite(pad_after = 2)]
            y: u8,
        },
    }
    /// every way to pad a variant
    #[derive(SsbhWrite)]
    #[ssbhwrite(magic = b"VAR")]
    enum Variants {
        #[ssbhwrite(pad_after = 3)]
        T1(u16),
        #[ssbhwrite(pad_after = 7)]
        T3(u8, RelPtr64<u16>, #[ssbhwrite(pad_after = 1)] u8),
        #[ssbhwrite(pad_after = 2)]
        N1 { x: RelPtr64<u32> },
        #[ssbhwrite(pad_after = 9)]
        N4 {
            #[ssbhwrite(pad_after = 4)]
            x: u8,
            p: RelPtr64<u8>,
            s: SsbhString,
            v: SsbhArray<u8>,
        },
        Plain { x: u8, p: RelPtr64<u8> },
        Bare(RelPtr64<u8>, u8),
    }
    /// every way to pad a record
    #[derive(SsbhWrite)]
    #[ssbhwrite(magic = b"RECORD", pad_after = 6)]
    struct Padded {
        #[ssbhwrite(pad_after = 3)]
        x: u8,
        p: RelPtr64<u16>,
        #[ssbhwrite(pad_after = 1)]
        v: SsbhArray<u8>,
    }
    #[derive(SsbhWrite)]
    #[ssbhwrite(magic = b"T", pad_after = 11)]
    struct PaddedTuple(RelPtr64<u16>, #[ssbhwrite(pad_after = 2)] RelPtr64<u8>, u8);
    #[derive(SsbhWrite)]
    struct Generic<T: SsbhWrite, const K: usize> {
        a: [T; K],
        b: RelPtr64<T>,
    }
    #[derive(SsbhWrite)]
    struct Ptrs {
        a: u8,
        p: RelPtr64<u16>,
        s: SsbhString,
        v: SsbhArray<u16>,
        o: Option<u32>,
        q: RelPtr64<u16>,
        inner: Pad,
    }
    #[derive(SsbhWrite)]
    struct Strs {
        p: RelPtr64<u8>,
        name: CString<1>,
        q: RelPtr64<u8>,
    }
    fn raw(b: &[u8]) -> N {
        N::Raw(b.to_vec())
    }
    fn some(n: N) -> Option<Box<N>> {
        Some(Box::new(n))
    }
    fn at() -> u64 {
        [0, 3, 8][vp::choice(3) as usize]
    }
    fn go<T: SsbhWrite>(v: T, n: N) {
        let at = at();
        let next = at + [0, 1, 30][vp::choice(3) as usize];
        agrees(&v, &n, at, next, true);
    }

    macro_rules! prims {
        ($($k:literal $t:ty, $nz:ty);*) => {
            match vp::param(0) {
                $($k => {
                    let b = vp::arr::<{ std::mem::size_of::<$t>() }>();
                    let v = <$t>::from_le_bytes(b);
                    if let Some(z) = <$nz>::new(v) {
                        go(z, raw(&b));
                    }
                    go(v, raw(&b));
                })*
                _ => {}
            }
        };
    }
    #[no_mangle]
    pub extern "C" fn w_prims() {
        prims!(0 u8, NonZeroU8; 1 u16, NonZeroU16; 2 u32, NonZeroU32; 3 u64, NonZeroU64; 4 u128, NonZeroU128;
               5 i8, NonZeroI8; 6 i16, NonZeroI16; 7 i32, NonZeroI32; 8 i64, NonZeroI64; 9 i128, NonZeroI128;
               10 usize_t, NonZeroUsize);
        match vp::param(0) {
            11 => {
                let b = vp::arr::<4>();
                go(f32::from_le_bytes(b), raw(&b))
            }
            12 => {
                let b = vp::arr::<8>();
                go(f64::from_le_bytes(b), raw(&b))
            }
            13 => go((), N::Rec(vec![], 0)),
            _ => {}
        }
    }
    #[allow(non_camel_case_types)]
    type usize_t = UsizeLe;
    /// usize has no implementation of its own; only its non-zero form does
    #[derive(Clone, Copy)]
    pub struct UsizeLe(usize);
    impl UsizeLe {
        fn from_le_bytes(b: [u8; 8]) -> Self {
            UsizeLe(usize::from_le_bytes(b))
        }
    }
    impl SsbhWrite for UsizeLe {
        fn ssbh_write<W: std::io::Write + std::io::Seek>(&self, w: &mut W, d: &mut u64) -> std::io::Result<()> {
            (self.0 as u64).ssbh_write(w, d)
        }
        fn size_in_bytes(&self) -> u64 {
            8
        }
    }
    struct NonZeroUsize;
    impl NonZeroUsize {
        fn new(v: UsizeLe) -> Option<std::num::NonZeroUsize> {
            std::num::NonZeroUsize::new(v.0)
        }
    }

    fn pad_node(a: u8, b: u8, c: u16) -> (Pad, N) {
        (Pad { a, b, c }, N::Rec(vec![raw(&[a, b, 0, 0, 0]), raw(&c.to_le_bytes())], 0))
    }
    #[no_mangle]
    pub extern "C" fn w_types() {
        let (a, b, c, d) = (vp::u8(), vp::u16(), vp::u32(), vp::u64());
        let l16 = b.to_le_bytes();
        match vp::param(0) {
            0 => {
                let (e, f, g, h) = (vp::i16(), vp::f32(), vp::u8() as i8, f64::from_bits(vp::u64()));
                let mut x = vec![a];
                x.extend(l16);
                x.extend(c.to_le_bytes());
                x.extend(d.to_le_bytes());
                x.extend((e as u16).to_le_bytes());
                x.extend(f.to_bits().to_le_bytes());
                x.push(g as u8);
                x.extend(h.to_bits().to_le_bytes());
                go(Named { a, b, c, d, e, f, g, h }, N::Rec(vec![raw(&x)], 0))
            }
            1 => {
                let y = [vp::u16(), vp::u16(), vp::u16()];
                let mut x = l16.to_vec();
                x.push(a);
                for k in y {
                    x.extend(k.to_le_bytes());
                }
                go(Tuple(b, a, y), N::Rec(vec![raw(&x)], 0))
            }
            2 => {
                let (v, n) = pad_node(a, c as u8, b);
                go(v, n)
            }
            3 => go(PadAll(a, c), N::Rec(vec![raw(&[a, 0, 0]), raw(&c.to_le_bytes())], 5)),
            4 => go(Magic { a: b }, N::Rec(vec![raw(b"xyz"), raw(&l16)], 2)),
            5 => go(Repr16::B, N::Rec(vec![raw(&[0x34, 0x12])], 0)),
            6 => go(Repr64::A, N::Rec(vec![raw(&[8, 7, 6, 5, 4, 3, 2, 1])], 0)),
            7 => go(Data::A(a, b), N::Rec(vec![raw(&[a]), raw(&l16)], 5)),
            8 => go(Data::B { x: c, y: a }, N::Rec(vec![raw(&c.to_le_bytes()), raw(&[a, 0, 0])], 1)),
            9 => {
                // options: absent ones emit nothing
                let o = if vp::flag() { Some(c) } else { None };
                let n = N::Rec(o.iter().map(|x| raw(&x.to_le_bytes())).collect(), 0);
                go(o, n)
            }
            10 => {
                let k = vp::choice(4) as usize;
                let v: Vec<u16> = (0..k).map(|_| vp::u16()).collect();
                let n = N::Rec(v.iter().map(|x| raw(&x.to_le_bytes())).collect(), 0);
                go(v, n)
            }
            11 => {
                // elements of differing size
                let k = vp::choice(4) as usize;
                let v: Vec<Option<u16>> = (0..k).map(|_| if vp::flag() { Some(vp::u16()) } else { None }).collect();
                let n = N::Rec(v.iter().flatten().map(|x| raw(&x.to_le_bytes())).collect(), 0);
                go(v, n)
            }
            12 => {
                let t = text([0, 1, 3, 4][vp::choice(4) as usize]);
                let s = vp::flag();
                let v = Ptrs {
                    a,
                    p: if s { RelPtr64::new(b) } else { RelPtr64::null() },
                    s: SsbhString::from_bytes(&t),
                    v: (0..vp::choice(3)).map(|i| b ^ i as u16).collect(),
                    o: if vp::flag() { Some(c) } else { None },
                    q: RelPtr64::new(b),
                    inner: pad_node(a, 7, b).0,
                };
                let n = N::Rec(
                    vec![
                        raw(&[a]),
                        N::Rel(2, if s { Some(Box::new(raw(&l16))) } else { None }),
                        N::Rec(vec![str_node(&t, 4)], 0),
                        N::Arr(v.v.elements.iter().map(|x| raw(&x.to_le_bytes())).collect()),
                        N::Rec(v.o.iter().map(|x| raw(&x.to_le_bytes())).collect(), 0),
                        N::Rel(2, Some(Box::new(raw(&l16)))),
                        pad_node(a, 7, b).1,
                    ],
                    0,
                );
                go(v, n)
            }
            13 => {
                // inline text between pointers
                let t = text(vp::choice(4) as usize);
                let v = Strs { p: RelPtr64::new(a), name: CString::from_bytes(&t), q: RelPtr64::new(a ^ 1) };
                let n = N::Rec(vec![N::Rel(1, Some(Box::new(raw(&[a])))), s_node(&t, 1), N::Rel(1, Some(Box::new(raw(&[a ^ 1]))))], 0);
                go(v, n)
            }
            14 => go(MagicTuple(b), N::Rec(vec![raw(b"TU"), raw(&l16)], 0)),
            15 => go(MagicEnum::A(b), N::Rec(vec![raw(b"EN"), raw(&l16)], 0)),
            16 => {
                let t = text(vp::choice(4) as usize);
                go(CString::<4>::from_bytes(&t), s_node(&t, 4))
            }
            18 => go(ReprPad::B, N::Rec(vec![raw(&[b'R', 1, 0xfe])], 3)),
            19 => go(Variants::T1(b), N::Rec(vec![raw(b"VAR"), raw(&l16)], 3)),
            20 => go(Variants::T3(a, RelPtr64::new(b), 5), N::Rec(vec![raw(b"VAR"), raw(&[a]), N::Rel(2, some(raw(&l16))), raw(&[5, 0])], 7)),
            21 => go(Variants::N1 { x: RelPtr64::new(c) }, N::Rec(vec![raw(b"VAR"), N::Rel(4, some(raw(&c.to_le_bytes())))], 2)),
            22 => {
                let t = text(vp::choice(4) as usize);
                let k = vp::choice(3) as usize;
                let n = N::Rec(
                    vec![raw(b"VAR"), raw(&[a, 0, 0, 0, 0]), N::Rel(1, some(raw(&[l16[0]]))), N::Rec(vec![str_node(&t, 4)], 0), N::Arr((0..k).map(|i| raw(&[l16[1] ^ i as u8])).collect())],
                    9,
                );
                go(Variants::N4 { x: a, p: RelPtr64::new(l16[0]), s: SsbhString::from_bytes(&t), v: (0..k).map(|i| l16[1] ^ i as u8).collect() }, n)
            }
            23 => go(Variants::Plain { x: a, p: RelPtr64::new(l16[0]) }, N::Rec(vec![raw(b"VAR"), raw(&[a]), N::Rel(1, some(raw(&[l16[0]])))], 0)),
            24 => go(Variants::Bare(RelPtr64::new(l16[0]), a), N::Rec(vec![raw(b"VAR"), N::Rel(1, some(raw(&[l16[0]]))), raw(&[a])], 0)),
            25 => {
                let k = vp::choice(3) as usize;
                let n = N::Rec(vec![raw(b"RECORD"), raw(&[a, 0, 0, 0]), N::Rel(2, some(raw(&l16))), N::Rec(vec![N::Arr((0..k).map(|i| raw(&[a ^ i as u8])).collect()), raw(&[0])], 0)], 6);
                go(Padded { x: a, p: RelPtr64::new(b), v: (0..k).map(|i| a ^ i as u8).collect() }, n)
            }
            26 => go(PaddedTuple(RelPtr64::new(b), RelPtr64::new(a), 9), N::Rec(vec![raw(b"T"), N::Rel(2, some(raw(&l16))), N::Rel(1, some(raw(&[a]))), raw(&[0, 0, 9])], 11)),
            27 => go(Generic::<u16, 2> { a: [b, b ^ 1], b: RelPtr64::new(b) }, N::Rec(vec![raw(&l16), raw(&(b ^ 1).to_le_bytes()), N::Rel(2, some(raw(&l16)))], 0)),
            28 => {
                // records with padding as elements, and behind a pointer
                let k = vp::choice(3) as usize;
                let one = |i: usize| Variants::Plain { x: a ^ i as u8, p: RelPtr64::new(l16[0]) };
                let node = |i: usize| N::Rec(vec![raw(b"VAR"), raw(&[a ^ i as u8]), N::Rel(1, some(raw(&[l16[0]])))], 0);
                go(RelPtr64::new((0..k).map(one).collect::<SsbhArray<_>>()), N::Rel(8, some(N::Arr((0..k).map(node).collect()))))
            }
            17 => {
                let v = [Some(a), None, Some(a ^ 1)];
                go(v, N::Rec(vec![raw(&[a, a ^ 1])], 0))
            }
            _ => {}
        }
    }
    /// every vector and matrix type of the library: components in order
    #[no_mangle]
    pub extern "C" fn w_vectors() {
        fn f(b: &[u8], i: usize) -> f32 {
            f32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap())
        }
        let b = vp::bytes(64);
        let v3 = |i| Vector3::new(f(&b, i), f(&b, i + 1), f(&b, i + 2));
        let v4 = |i| Vector4::new(f(&b, i), f(&b, i + 1), f(&b, i + 2), f(&b, i + 3));
        match vp::param(0) {
            0 => go(v3(0), N::Rec(vec![raw(&b[..12])], 0)),
            1 => go(v4(0), N::Rec(vec![raw(&b[..16])], 0)),
            2 => go(Color4f { r: f(&b, 0), g: f(&b, 1), b: f(&b, 2), a: f(&b, 3) }, N::Rec(vec![raw(&b[..16])], 0)),
            3 => go(Matrix3x3 { col1: v3(0), col2: v3(3), col3: v3(6) }, N::Rec(vec![raw(&b[..36])], 0)),
            4 => go(Matrix4x4 { col1: v4(0), col2: v4(4), col3: v4(8), col4: v4(12) }, N::Rec(vec![raw(&b[..64])], 0)),
            _ => {}
        }
    }
}

// ---- L01 -------------------------------------------------------------------------------------
#[cfg(feature = "l01")]
pub mod l01 {
    use super::*;

    #[derive(BinRead, SsbhWrite, PartialEq)]
    struct Leaf {
        x: u16,
        p: RelPtr64<u8>,
    }
    #[derive(BinRead, SsbhWrite, PartialEq)]
    #[ssbhwrite(alignment = 16)]
    struct Wide {
        x: u32,
        s: SsbhString8,
    }
    #[derive(BinRead, SsbhWrite, PartialEq)]
    struct Tree {
        a: u8,
        p: RelPtr64<u32>,
        q: RelPtr64<Leaf>,
        b: u16,
        s: SsbhString,
        w: RelPtr64<Wide>,
        r: RelPtr64<RelPtr64<u16>>,
        z: RelPtr64<u8>,
    }
    #[derive(BinRead, SsbhWrite, PartialEq)]
    struct Abs {
        a: u8,
        p: Ptr64<u16>,
        q: Ptr32<Leaf2>,
        r: Ptr16<u8>,
        c: Ptr64<CString<16>>,
        z: Ptr64<Ptr32<u32>>,
        t: Ptr64<CString1>,
    }
    #[derive(BinRead, SsbhWrite, PartialEq)]
    #[ssbhwrite(alignment = 4)]
    struct Leaf2 {
        x: u16,
        p: Ptr16<u8>,
    }
    fn raw(b: &[u8]) -> N {
        N::Raw(b.to_vec())
    }
    fn opt(n: N) -> Option<Box<N>> {
        Some(Box::new(n))
    }
    fn leaf(x: u16, p: Option<u8>) -> (Leaf, N) {
        (Leaf { x, p: p.into() }, N::Rec(vec![raw(&x.to_le_bytes()), N::Rel(1, p.map(|b| Box::new(raw(&[b]))))], 0))
    }
    fn start() -> (u64, u64) {
        let at = [0, 5, 16][vp::choice(3) as usize];
        (at, at + [0, 2, 100, 101][vp::choice(4) as usize])
    }

    #[no_mangle]
    pub extern "C" fn l_rel() {
        let m = vp::param(0);
        let has = |k: u64| m & (1 << k) != 0;
        let t = text([0, 1, 3, 4, 5][vp::choice(5) as usize]);
        let (x, y, b) = (vp::u8(), vp::u32(), vp::u16());
        let l = leaf(b, if has(0) { Some(x) } else { None });
        let u = text([0, 6, 7, 8][vp::choice(4) as usize]);
        let v = Tree {
            a: x,
            p: if has(1) { RelPtr64::new(y) } else { RelPtr64::null() },
            q: if has(2) { RelPtr64::new(l.0) } else { RelPtr64::null() },
            b,
            s: SsbhString::from_bytes(&t),
            w: if has(3) { RelPtr64::new(Wide { x: y, s: SsbhString8::from_bytes(&u) }) } else { RelPtr64::null() },
            r: if has(4) { RelPtr64::new(RelPtr64::new(b)) } else { RelPtr64::null() },
            z: if has(5) { RelPtr64::new(x) } else { RelPtr64::null() },
        };
        let n = N::Rec(
            vec![
                raw(&[x]),
                N::Rel(4, if has(1) { opt(raw(&y.to_le_bytes())) } else { None }),
                N::Rel(std::mem::align_of::<Leaf>() as u64, if has(2) { opt(l.1) } else { None }),
                raw(&b.to_le_bytes()),
                N::Rec(vec![str_node(&t, 4)], 0),
                N::Rel(16, if has(3) { opt(N::Rec(vec![raw(&y.to_le_bytes()), N::Rec(vec![str_node(&u, 8)], 0)], 0)) } else { None }),
                N::Rel(std::mem::align_of::<RelPtr64<u16>>() as u64, if has(4) { opt(N::Rel(2, opt(raw(&b.to_le_bytes())))) } else { None }),
                N::Rel(1, if has(5) { opt(raw(&[x])) } else { None }),
            ],
            0,
        );
        let (at, next) = start();
        let b = agrees(&v, &n, at, next, true);
        back(&v, &b, at, n.size());
    }
    #[no_mangle]
    pub extern "C" fn l_abs() {
        let m = vp::param(0);
        let has = |k: u64| m & (1 << k) != 0;
        let t = text([0, 1, 15, 16, 17][vp::choice(5) as usize]);
        let u = text([0, 2][vp::choice(2) as usize]);
        let (x, y, b) = (vp::u8(), vp::u32(), vp::u16());
        let v = Abs {
            a: x,
            p: if has(0) { Ptr64::new(b) } else { Ptr64::null() },
            q: if has(1) { Ptr32::new(Leaf2 { x: b, p: if has(2) { Ptr16::new(x) } else { Ptr16::null() } }) } else { Ptr32::null() },
            r: if has(3) { Ptr16::new(x) } else { Ptr16::null() },
            c: Ptr64::new(CString::from_bytes(&t)),
            z: if has(4) { Ptr64::new(Ptr32::new(y)) } else { Ptr64::null() },
            t: Ptr64::new(CString1::from_bytes(&u)),
        };
        let n = N::Rec(
            vec![
                raw(&[x]),
                N::Abs(8, 2, if has(0) { opt(raw(&b.to_le_bytes())) } else { None }),
                N::Abs(4, 4, if has(1) { opt(N::Rec(vec![raw(&b.to_le_bytes()), N::Abs(2, 1, if has(2) { opt(raw(&[x])) } else { None })], 0)) } else { None }),
                N::Abs(2, 1, if has(3) { opt(raw(&[x])) } else { None }),
                N::Abs(8, 16, opt(s_node(&t, 16))),
                N::Abs(8, std::mem::align_of::<Ptr32<u32>>() as u64, if has(4) { opt(N::Abs(4, 4, opt(raw(&y.to_le_bytes())))) } else { None }),
                N::Abs(8, 1, opt(s_node(&u, 1))),
            ],
            0,
        );
        let (at, next) = start();
        let b = agrees(&v, &n, at, next, true);
        back(&v, &b, at, n.size());
    }
    /// absolute pointers too narrow for their target are refused, all others are exact
    #[no_mangle]
    pub extern "C" fn l_narrow() {
        let next = [65520u64, 65533, 65534, 65535, 65536, 65537, 131070][vp::choice(7) as usize];
        let x = vp::u32();
        let aligned = (next + 3) & !3;
        let v = Ptr16::<u32>::new(x);
        let mut w = Cursor::new(Vec::new());
        let mut dp = next;
        match v.ssbh_write(&mut w, &mut dp) {
            Ok(()) => {
                vp::check(aligned <= 0xffff, "narrow.accepted");
                let b = w.into_inner();
                vp::check(vp::same(&b[..2], &le(aligned, 2)), "narrow.offset");
                vp::check(vp::same(&b[aligned as usize..], &x.to_le_bytes()), "narrow.data");
                let r = Cursor::new(&b[..]).read_le::<Ptr16<u32>>();
                vp::check(r.map_or(false, |r| r == v), "narrow.read");
                vp::reach("fits");
            }
            Err(_) => {
                vp::check(aligned > 0xffff, "narrow.refused");
                vp::reach("too-far");
            }
        }
    }
    /// any stored offset: null, inside or outside the data, or overflowing
    #[no_mangle]
    pub extern "C" fn l_read() {
        vp::stub_format();
        let n = vp::param(1) as usize;
        let pre = vp::param(2) as usize;
        let b = vp::bytes(n);
        let u16_at = |p: u64| u16::from_le_bytes([b[p as usize], b[p as usize + 1]]);
        let stored = |w: usize| {
            let mut x = [0u8; 8];
            x[..w].copy_from_slice(&b[pre..pre + w]);
            u64::from_le_bytes(x)
        };
        let mut r = vp::Rd::new(&b);
        r.seek(SeekFrom::Start(pre as u64)).unwrap();
        let (got, off, w): (Result<Option<u16>, ()>, u64, usize) = match vp::param(0) {
            0 => (r.read_le::<RelPtr64<u16>>().map(|p| *p).map_err(|_| ()), stored(8), 8),
            1 => (r.read_le::<Ptr64<u16>>().map(|p| *p).map_err(|_| ()), stored(8), 8),
            2 => (r.read_le::<Ptr32<u16>>().map(|p| *p).map_err(|_| ()), stored(4), 4),
            _ => (r.read_le::<Ptr16<u16>>().map(|p| *p).map_err(|_| ()), stored(2), 2),
        };
        let target = if vp::param(0) == 0 { off.checked_add(pre as u64) } else { Some(off) };
        match got {
            Ok(None) => {
                vp::check(off == 0, "null");
                vp::check(r.stream_position().unwrap() == (pre + w) as u64, "position");
                vp::reach("null");
            }
            Ok(Some(v)) => {
                vp::check(off != 0, "nonnull");
                match target {
                    Some(t) if t <= n as u64 - 2 => {
                        let t = vp::conc(t);
                        vp::check(v == u16_at(t), "pointee")
                    }
                    _ => vp::fail("outside"),
                }
                vp::check(r.stream_position().unwrap() == (pre + w) as u64, "position");
                vp::reach("value");
            }
            Err(()) => {
                vp::check(off != 0 && target.map_or(true, |t| t > n as u64 - 2), "refused");
                vp::reach("error");
            }
        }
    }
}

// ---- L02 -------------------------------------------------------------------------------------
#[cfg(feature = "l02")]
pub mod l02 {
    use super::*;

    #[derive(BinRead, SsbhWrite, PartialEq, Clone)]
    struct Item {
        a: u8,
        s: SsbhString,
        v: SsbhArray<u16>,
        p: RelPtr64<u8>,
    }
    fn raw(b: &[u8]) -> N {
        N::Raw(b.to_vec())
    }
    fn item(k: usize, m: usize) -> (Item, N) {
        let a = vp::u8();
        let t = text(k);
        let e: Vec<u16> = (0..m).map(|_| vp::u16()).collect();
        let p = if k % 2 == 1 { Some(vp::u8()) } else { None };
        (
            Item { a, s: SsbhString::from_bytes(&t), v: e.clone().into(), p: p.into() },
            N::Rec(
                vec![
                    raw(&[a]),
                    N::Rec(vec![str_node(&t, 4)], 0),
                    N::Arr(e.iter().map(|x| raw(&x.to_le_bytes())).collect()),
                    N::Rel(1, p.map(|p| Box::new(raw(&[p])))),
                ],
                0,
            ),
        )
    }
    fn go<T: SsbhWrite + PartialEq>(e: Vec<T>, n: Vec<N>)
    where
        T: for<'a> BinRead<Args<'a> = ()>,
    {
        let v: SsbhArray<T> = e.into();
        let n = N::Arr(n);
        let at = [0, 3][vp::choice(2) as usize];
        let next = at + [0, 25, 32][vp::choice(3) as usize];
        let b = agrees(&v, &n, at, next, true);
        back(&v, &b, at, 16);
    }
    #[no_mangle]
    pub extern "C" fn a_rt() {
        let k = vp::param(1) as usize;
        match vp::param(0) {
            0 => {
                let e: Vec<u8> = vp::bytes(k);
                let n = e.iter().map(|x| raw(&[*x])).collect();
                go(e, n)
            }
            1 => {
                let e: Vec<u32> = (0..k).map(|_| vp::u32()).collect();
                let n = e.iter().map(|x| raw(&x.to_le_bytes())).collect();
                go(e, n)
            }
            2 => {
                let e: Vec<Vec<u8>> = (0..k).map(|i| text((i * 3 + vp::param(2) as usize) % 6)).collect();
                let n = e.iter().map(|x| N::Rec(vec![str_node(x, 8)], 0)).collect();
                go(e.iter().map(|x| SsbhString8::from_bytes(x)).collect(), n)
            }
            3 => {
                let e: Vec<(Item, N)> = (0..k).map(|i| item((i + vp::param(2) as usize) % 5, (i + 1) % 3)).collect();
                let mut v = Vec::new();
                let mut n = Vec::new();
                for (a, b) in e {
                    v.push(a);
                    n.push(b);
                }
                go(v, n)
            }
            4 => {
                let e: Vec<Vec<u16>> = (0..k).map(|i| (0..(i + vp::param(2) as usize) % 3).map(|_| vp::u16()).collect()).collect();
                let n = e.iter().map(|x| N::Arr(x.iter().map(|y| raw(&y.to_le_bytes())).collect())).collect();
                go(e.iter().map(|x| SsbhArray::from_vec(x.clone())).collect(), n)
            }
            5 => {
                let e: Vec<Option<u16>> = (0..k).map(|i| if (i + vp::param(2) as usize) % 2 == 0 { Some(vp::u16()) } else { None }).collect();
                let n = e.iter().map(|x| N::Rel(2, x.map(|y| Box::new(raw(&y.to_le_bytes()))))).collect();
                go(e.iter().map(|x| RelPtr64::from(*x)).collect(), n)
            }
            6 => {
                let e: Vec<[u8; 12]> = (0..k).map(|_| vp::arr()).collect();
                // not a NaN, so that values compare
                let f = |b: &[u8]| {
                    let x = u32::from_le_bytes(b.try_into().unwrap());
                    vp::assume(x & 0x7f80_0000 != 0x7f80_0000);
                    f32::from_bits(x)
                };
                let v = e.iter().map(|b| Vector3::new(f(&b[..4]), f(&b[4..8]), f(&b[8..]))).collect();
                let n = e.iter().map(|x| N::Rec(vec![raw(x)], 0)).collect();
                go(v, n)
            }
            _ => {
                let e: Vec<Vec<u8>> = (0..k).map(|i| vp::bytes((i * 5 + vp::param(2) as usize) % 11)).collect();
                let n = e.iter().map(|x| N::Buf(x.clone())).collect();
                go(e.iter().map(|x| SsbhByteBuffer::from_vec(x.clone())).collect(), n)
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn a_buf() {
        let e = vp::bytes(vp::param(0) as usize);
        let v: SsbhByteBuffer = e.clone().into();
        let n = N::Buf(e);
        let at = [0, 3][vp::choice(2) as usize];
        let next = at + [0, 25, 32][vp::choice(3) as usize];
        let b = agrees(&v, &n, at, next, true);
        back(&v, &b, at, 16);
    }
    /// one element symbolic in a long array
    #[no_mangle]
    pub extern "C" fn a_long() {
        let n = vp::param(0) as usize;
        let mut e = vec![0u8; n];
        for (i, b) in e.iter_mut().enumerate() {
            *b = (i * 7 % 251) as u8;
        }
        for i in [0, n / 2, n - 1] {
            e[i] = vp::u8();
        }
        let mut w = Cursor::new(Vec::new());
        if vp::param(1) == 0 {
            let v: SsbhByteBuffer = e.clone().into();
            vp::check(v.write(&mut w).is_ok(), "write");
            w.set_position(0);
            match w.read_le::<SsbhByteBuffer>() {
                Ok(r) => vp::check(vp::same(&r.elements, &e), "equal"),
                Err(_) => vp::fail("read"),
            }
        } else {
            let v: SsbhArray<u8> = e.clone().into();
            vp::check(v.write(&mut w).is_ok(), "write");
            w.set_position(0);
            match w.read_le::<SsbhArray<u8>>() {
                Ok(r) => vp::check(vp::same(&r.elements, &e), "equal"),
                Err(_) => vp::fail("read"),
            }
        }
        vp::check(w.position() == 16, "reader-position");
        vp::check(w.get_ref().len() == 16 + n, "length");
        vp::reach("long");
    }
    /// any stored offset and count
    #[no_mangle]
    pub extern "C" fn a_read() {
        vp::stub_format();
        vp::alloc_limit(200 << 20);
        let pre = 2usize;
        let n = vp::param(1) as usize;
        let b = vp::bytes(n);
        let q = |p: usize| u64::from_le_bytes(b[p..p + 8].try_into().unwrap());
        let (off, count) = (q(pre), q(pre + 8));
        let w: u64 = match vp::param(0) {
            0 => 1,
            1 => 2,
            _ => 1,
        };
        let mut r = vp::Rd::new(&b);
        r.seek(SeekFrom::Start(pre as u64)).unwrap();
        let got: Result<Vec<u8>, ()> = match vp::param(0) {
            0 => r.read_le::<SsbhArray<u8>>().map(|a| a.elements).map_err(|_| ()),
            1 => r.read_le::<SsbhArray<u16>>().map(|a| a.elements.iter().flat_map(|x| x.to_le_bytes()).collect()).map_err(|_| ()),
            _ => r.read_le::<SsbhByteBuffer>().map(|a| a.elements).map_err(|_| ()),
        };
        let end = (off as u128) + (pre as u128) + (count as u128) * (w as u128);
        match got {
            Ok(v) => {
                vp::check(v.len() as u64 == count * w, "count");
                vp::check(r.stream_position().unwrap() == pre as u64 + 16, "position");
                if count != 0 {
                    vp::check(end <= n as u128, "inside");
                    let s = vp::conc(off) as usize + pre;
                    vp::check(vp::same(&v, &b[s..s + v.len()]), "contents");
                    vp::reach("some");
                } else {
                    vp::reach("none");
                }
            }
            Err(()) => {
                vp::check(end > n as u128 && (count != 0 || end > u64::MAX as u128), "refused");
                vp::reach("error");
            }
        }
    }
}

// ---- L03 -------------------------------------------------------------------------------------
#[cfg(feature = "l03")]
pub mod l03 {
    use super::*;
    fn zero_at(b: &[u8]) -> usize {
        b.iter().position(|c| *c == 0).unwrap_or(b.len())
    }
    fn one<const M: usize>(b: &[u8]) {
        let k = zero_at(b);
        let c = CString::<M>::from_bytes(b);
        let utf = std::str::from_utf8(&b[..k]).ok();
        vp::check(c.to_str() == utf, "text");
        vp::check(c.to_string_lossy() == utf.unwrap_or(""), "lossy");
        vp::check(<CString<M> as SsbhWrite>::alignment_in_bytes() == M as u64, "alignment");
        let p = RelPtr64::<CString<M>>::new(c);
        let at = [0, 1][vp::choice(2) as usize];
        let next = at + [8, 9, 23][vp::choice(3) as usize];
        let out = agrees(&p, &str_node(&b[..k], M), at, next, true);
        let s = up(next, M as u64) as usize;
        vp::check(out.len() == s + if k == 0 { M } else { k + 1 }, "terminated");
        back(&p, &out, at, 8);
        let pa = Ptr64::<CString<M>>::new(CString::<M>::from_bytes(b));
        let out = agrees(&pa, &N::Abs(8, M as u64, Some(Box::new(s_node(&b[..k], M)))), at, next, true);
        back(&pa, &out, at, 8);
        vp::reach("string");
    }
    use crate::model::up;
    #[no_mangle]
    pub extern "C" fn s_rt() {
        let b = vp::bytes(vp::param(1) as usize);
        match vp::param(0) {
            1 => one::<1>(&b),
            4 => one::<4>(&b),
            8 => one::<8>(&b),
            _ => one::<16>(&b),
        }
    }
    /// the pointer types used in files
    #[no_mangle]
    pub extern "C" fn s_types() {
        let b = vp::bytes(vp::param(0) as usize);
        let k = zero_at(&b);
        let utf = std::str::from_utf8(&b[..k]).ok();
        let s4 = SsbhString::from_bytes(&b);
        let s8 = SsbhString8::from_bytes(&b);
        vp::check(s4.to_str() == utf && s8.to_str() == utf, "text");
        vp::check(s4.to_string_lossy() == utf.unwrap_or("") && s8.to_string_lossy() == utf.unwrap_or(""), "lossy");
        if let Some(t) = utf {
            vp::check(SsbhString::from(t) == s4, "from-str");
            vp::check(SsbhString8::from(t.to_string()) == s8, "from-string");
            vp::check(t.parse::<SsbhString>().map_or(false, |x| x == s4), "parse");
            vp::check(SsbhString::from(&t.to_string()) == s4, "from-string-ref");
            vp::reach("valid");
        } else {
            vp::reach("invalid");
        }
        let o4 = agrees(&s4, &N::Rec(vec![str_node(&b[..k], 4)], 0), 0, 10, true);
        back(&s4, &o4, 0, 8);
        let o8 = agrees(&s8, &N::Rec(vec![str_node(&b[..k], 8)], 0), 0, 10, true);
        back(&s8, &o8, 0, 8);
    }
    /// long text with some arbitrary characters: [alignment, length]
    #[no_mangle]
    pub extern "C" fn s_long() {
        let n = vp::param(1) as usize;
        let mut b: Vec<u8> = (0..n).map(|i| (i * 7 % 251 + 1) as u8 & 0x7f | 1).collect();
        for i in [n / 2, n - 1] {
            b[i] = vp::u8();
        }
        match vp::param(0) {
            1 => one::<1>(&b),
            4 => one::<4>(&b),
            8 => one::<8>(&b),
            _ => one::<16>(&b),
        }
    }
    /// text after an embedded NUL never appears
    #[no_mangle]
    pub extern "C" fn s_nul() {
        let mut b = vp::bytes(4);
        let k = vp::choice(4) as usize;
        for i in 0..k {
            b[i] = b[i] | 1;
        }
        b[k] = 0;
        for c in &b {
            vp::assume(*c < 0x80);
        }
        let s = unsafe { std::str::from_utf8_unchecked(&b) };
        let a = SsbhString::from(s);
        let o = agrees(&a, &N::Rec(vec![str_node(&b[..k], 4)], 0), 0, 8, true);
        back(&a, &o, 0, 8);
        let p = Ptr64::<CString<16>>::new(s.into());
        let o = agrees(&p, &N::Abs(8, 16, Some(Box::new(s_node(&b[..k], 16)))), 0, 8, true);
        back(&p, &o, 0, 8);
    }
    /// any file contents: the string ends at the first NUL, or reading fails
    #[no_mangle]
    pub extern "C" fn s_read() {
        vp::stub_format();
        let n = vp::param(0) as usize;
        let b = vp::bytes(n);
        let mut r = vp::Rd::new(&b);
        match r.read_le::<CString1>() {
            Ok(s) => {
                let k = zero_at(&b);
                vp::check(k < n, "no-terminator");
                vp::check(s == CString1::from_bytes(&b[..k]), "contents");
                vp::check(r.stream_position().unwrap() == k as u64 + 1, "position");
                let mut w = Cursor::new(Vec::new());
                vp::check(s.write(&mut w).is_ok() && vp::same(w.get_ref(), &b[..k + 1]), "written");
                vp::reach("some");
            }
            Err(_) => {
                vp::check(zero_at(&b) == n, "refused");
                vp::reach("error");
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn s_null() {
        let z = [0u8; 8];
        let s = Cursor::new(&z[..]).read_le::<SsbhString>();
        match s {
            Ok(s) => {
                vp::check(s.to_str().is_none() && s.to_string_lossy().is_empty(), "null");
                let mut w = Cursor::new(Vec::new());
                vp::check(s.write(&mut w).is_ok() && w.get_ref()[..] == z, "null.written");
            }
            Err(_) => vp::fail("null.read"),
        }
        vp::reach("null");
    }
}

// ---- L04 -------------------------------------------------------------------------------------
#[cfg(feature = "l04")]
pub mod l04 {
    use super::*;
    use crate::gen::G;
    use ssbh_lib::formats::{matl::*, nrpd::*};

    #[derive(Debug, BinRead, SsbhWrite, PartialEq)]
    #[br(import(data_type: u64))]
    enum Data {
        #[br(pre_assert(data_type == 1))]
        A(u8),
        #[br(pre_assert(data_type == 0x8000_0000_0000_0000))]
        B(Leaf),
        #[br(pre_assert(data_type == 0))]
        C(SsbhString),
    }
    impl DataType for Data {
        fn data_type(&self) -> u64 {
            match self {
                Data::A(_) => 1,
                Data::B(_) => 0x8000_0000_0000_0000,
                Data::C(_) => 0,
            }
        }
    }
    #[derive(Debug, BinRead, SsbhWrite, PartialEq)]
    struct Leaf {
        x: u16,
        v: SsbhArray<u16>,
    }
    #[no_mangle]
    pub extern "C" fn e_rt() {
        let t = text([0, 2, 3][vp::choice(3) as usize]);
        let (a, x) = (vp::u8(), vp::u16());
        let al = std::mem::align_of::<Data>() as u64;
        let (v, n) = match vp::choice(4) {
            0 => (RelPtr64::null(), N::Tag(al, None, 0)),
            1 => (RelPtr64::new(Data::A(a)), N::Tag(al, Some(Box::new(N::Rec(vec![N::Raw(vec![a])], 0))), 1)),
            2 => (
                RelPtr64::new(Data::B(Leaf { x, v: vec![x, 3].into() })),
                N::Tag(
                    al,
                    Some(Box::new(N::Rec(vec![N::Raw(x.to_le_bytes().to_vec()), N::Arr(vec![N::Raw(x.to_le_bytes().to_vec()), N::Raw(vec![3, 0])])], 0))),
                    0x8000_0000_0000_0000,
                ),
            ),
            _ => (
                RelPtr64::new(Data::C(SsbhString::from_bytes(&t))),
                N::Tag(al, Some(Box::new(N::Rec(vec![N::Rec(vec![str_node(&t, 4)], 0)], 0))), 0),
            ),
        };
        let v = SsbhEnum64 { data: v };
        let at = [0, 5][vp::choice(2) as usize];
        let b = agrees(&v, &n, at, at + [0, 17, 31][vp::choice(3) as usize], true);
        back(&v, &b, at, 16);
    }
    /// every tag value: accepted only when a variant has it, and then as that variant
    fn tagged<T>(tags: &[u64], data: usize, all: bool)
    where
        T: DataType + SsbhWrite + for<'a> BinRead<Args<'a> = (u64,)>,
    {
        vp::stub_format();
        let tag = vp::u64();
        let off = if vp::flag() { 16u64 } else { 0 };
        let mut b = le(off, 8);
        b.extend(tag.to_le_bytes());
        b.extend(vec![0; data]);
        let mut r = Cursor::new(&b[..]);
        let known = tags.contains(&tag);
        match r.read_le::<SsbhEnum64<T>>() {
            Ok(v) => {
                vp::check(r.position() == 16, "position");
                match v.data.as_ref() {
                    None => {
                        vp::check(off == 0, "dropped");
                        vp::reach("null");
                    }
                    Some(d) => {
                        vp::check(off != 0 && known, "accepted");
                        vp::check(d.data_type() == tag, "tag");
                        let mut w = Cursor::new(Vec::new());
                        vp::check(v.write(&mut w).is_ok() && vp::same(&w.get_ref()[8..16], &b[8..16]), "tag-written");
                        vp::reach("value");
                    }
                }
            }
            Err(_) => {
                vp::check(off != 0, "null-refused");
                // zero bytes are valid contents for every variant of some types
                vp::check(!all || !known, "refused");
                vp::reach("refused");
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn e_tags() {
        const MATL: [u64; 9] = [1, 2, 5, 7, 11, 14, 16, 17, 18];
        match vp::param(0) {
            0 => tagged::<ParamV15>(&MATL, 64, false),
            1 => tagged::<ParamV16>(&MATL, 64, false),
            2 => tagged::<RenderPassData>(&[0, 1, 2, 3, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19], 96, true),
            3 => tagged::<RenderPassUnkData>(&[0, 3], 64, true),
            4 => tagged::<UnkItem2>(&[0, 1, 2, 4], 96, false),
            5 => tagged::<State>(&[0, 1, 2, 3], 160, false),
            6 => tagged::<FrameBuffer>(&[0, 1, 2, 3, 4], 96, false),
            _ => tagged::<Data>(&[1, 0x8000_0000_0000_0000, 0], 32, true),
        }
    }
    /// the tag each parameter variant is written with
    #[no_mangle]
    pub extern "C" fn e_param() {
        let k = vp::param(1) as u32;
        let mut g = G::new();
        g.dev = 0;
        g.top = Some(k);
        const TAGS: [u64; 9] = [1, 2, 5, 7, 11, 14, 16, 17, 18];
        let t = TAGS[k as usize];
        if vp::param(0) == 0 {
            let v: ParamV15 = g.make();
            let ok = match &v {
                ParamV15::Float(_) => t == 1,
                ParamV15::Boolean(_) => t == 2,
                ParamV15::Vector4(_) => t == 5,
                ParamV15::Unk7(_) => t == 7,
                ParamV15::String(_) => t == 11,
                ParamV15::Sampler(_) => t == 14,
                ParamV15::UvTransform(_) => t == 16,
                ParamV15::BlendState(_) => t == 17,
                ParamV15::RasterizerState(_) => t == 18,
            };
            vp::check(ok && v.data_type() == t, "tag");
            rt(v, t);
        } else {
            let v: ParamV16 = g.make();
            let ok = match &v {
                ParamV16::Float(_) => t == 1,
                ParamV16::Boolean(_) => t == 2,
                ParamV16::Vector4(_) => t == 5,
                ParamV16::Unk7(_) => t == 7,
                ParamV16::String(_) => t == 11,
                ParamV16::Sampler(_) => t == 14,
                ParamV16::UvTransform(_) => t == 16,
                ParamV16::BlendState(_) => t == 17,
                ParamV16::RasterizerState(_) => t == 18,
            };
            vp::check(ok && v.data_type() == t, "tag");
            rt(v, t);
        }
    }
    fn rt<T>(v: T, t: u64)
    where
        T: DataType + SsbhWrite + PartialEq + for<'a> BinRead<Args<'a> = (u64,)>,
    {
        let e = SsbhEnum64 { data: RelPtr64::new(v) };
        let mut w = Cursor::new(Vec::new());
        vp::check(e.write(&mut w).is_ok(), "write");
        vp::check(w.get_ref()[8..16] == t.to_le_bytes(), "tag-written");
        w.set_position(0);
        match w.read_le::<SsbhEnum64<T>>() {
            Ok(x) => vp::check(x == e, "equal"),
            Err(_) => vp::fail("read"),
        }
        vp::reach("param");
    }
}
