//! R01: reading any bytes gives a value or an error. R02: recognition by magic, type and version.
use crate::{gen::G, vp};
use ssbh_lib::{prelude::*, ReadSsbhError, Versioned};
use std::io::Cursor;

/// more than any allocation the library makes before it has seen the data (a byte buffer's first)
const LIMIT: usize = 101 << 20;

fn g(version: u64, var: u64, len: u64, slen: u64, dev: u64, fixed: bool) -> G {
    let mut g = G::new();
    g.top = Some(version as u32).filter(|k| *k != 99);
    (g.var, g.len, g.slen, g.dev, g.fixed) = (var as u32, len, slen, dev, fixed);
    g
}
/// written file of the given format
pub fn file(kind: u64, g: &mut G) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    macro_rules! w {
        ($t:ty) => {
            vp::check(g.make::<$t>().write(&mut c).is_ok(), "template")
        };
    }
    match kind {
        0 => w!(Hlpb),
        1 => w!(Matl),
        2 => w!(Modl),
        3 => w!(Mesh),
        4 => w!(Skel),
        5 => w!(Anim),
        6 => w!(Nlst),
        7 => w!(Nrpd),
        8 => w!(Nufx),
        9 => w!(Shdr),
        10 => w!(Adj),
        _ => w!(MeshEx),
    }
    c.into_inner()
}
fn read(kind: u64, b: &[u8]) -> bool {
    let mut r = vp::Rd::new(b);
    match kind {
        10 => Adj::read(&mut r).is_ok(),
        11 => MeshEx::read(&mut r).is_ok(),
        _ => SsbhFile::read(&mut r).is_ok(),
    }
}
fn outcome(ok: bool) {
    if ok {
        vp::reach("value")
    } else {
        vp::reach("error")
    }
}

#[cfg(feature = "r01")]
pub mod r01 {
    use super::*;
    /// every file of the given length
    #[no_mangle]
    pub extern "C" fn r_any() {
        vp::stub_format();
        vp::alloc_limit(LIMIT);
        let b = vp::bytes(vp::param(1) as usize);
        outcome(read(vp::param(0), &b));
    }
    /// a file with a run of arbitrary bytes at every position in turn
    #[no_mangle]
    pub extern "C" fn r_win() {
        vp::stub_format();
        let kind = vp::param(0);
        let mut b = file(kind, &mut g(vp::param(1), vp::param(2), vp::param(3), vp::param(4), 0, true));
        let (w, step, part, parts) = (vp::param(5) as usize, vp::param(6), vp::param(7), vp::param(8));
        vp::alloc_limit(LIMIT);
        // the header of the common container is R02's
        let first = if kind < 10 { 16 } else { 0 };
        let n = (b.len() as u64 - first + step - 1) / step;
        let (lo, hi) = (n * part / parts, n * (part + 1) / parts);
        let at = (first + (lo + vp::choice(hi - lo)) * step) as usize;
        let end = (at + w).min(b.len());
        vp::fill(&mut b[at..end]);
        outcome(read(kind, &b));
    }
    /// a file cut anywhere
    #[no_mangle]
    pub extern "C" fn r_cut() {
        vp::stub_format();
        let kind = vp::param(0);
        let mut b = file(kind, &mut g(vp::param(1), vp::param(2), vp::param(3), vp::param(4), 0, false));
        vp::alloc_limit(LIMIT);
        b.truncate(vp::choice(b.len() as u64 + 1) as usize);
        outcome(read(kind, &b));
    }
}

#[cfg(feature = "r02")]
pub mod r02 {
    use super::*;
    const TYPES: [(&[u8; 4], &[(u16, u16)]); 10] = [
        (b"BPLH", &[(1, 1)]),
        (b"LTAM", &[(1, 5), (1, 6)]),
        (b"LDOM", &[(1, 7)]),
        (b"HSEM", &[(1, 8), (1, 9), (1, 10)]),
        (b"LEKS", &[(1, 0)]),
        (b"MINA", &[(1, 2), (2, 0), (2, 1)]),
        (b"TSLN", &[(1, 0)]),
        (b"DPRN", &[(1, 6)]),
        (b"XFUN", &[(1, 0), (1, 1)]),
        (b"RDHS", &[(1, 2)]),
    ];
    fn version(s: &Ssbh) -> (usize, (u16, u16)) {
        use ssbh_lib::Version;
        match s {
            Ssbh::Hlpb(v) => (0, v.data.major_minor_version()),
            Ssbh::Matl(v) => (1, v.data.major_minor_version()),
            Ssbh::Modl(v) => (2, v.data.major_minor_version()),
            Ssbh::Mesh(v) => (3, v.data.major_minor_version()),
            Ssbh::Skel(v) => (4, v.data.major_minor_version()),
            Ssbh::Anim(v) => (5, v.data.major_minor_version()),
            Ssbh::Nlst(v) => (6, v.data.major_minor_version()),
            Ssbh::Nrpd(v) => (7, v.data.major_minor_version()),
            Ssbh::Nufx(v) => (8, v.data.major_minor_version()),
            Ssbh::Shdr(v) => (9, v.data.major_minor_version()),
        }
    }
    /// (type, version) a header names
    fn named(b: &[u8]) -> Option<(usize, (u16, u16))> {
        if b.len() < 24 || b[..4] != *b"HBSS" {
            return None;
        }
        let v = (u16::from_le_bytes([b[20], b[21]]), u16::from_le_bytes([b[22], b[23]]));
        let t = TYPES.iter().position(|t| t.0[..] == b[16..20])?;
        TYPES[t].1.contains(&v).then_some((t, v))
    }
    /// any header, followed by contents every type accepts
    #[no_mangle]
    pub extern "C" fn h_read() {
        vp::stub_format();
        let mut b = vec![0u8; 24 + 600];
        vp::fill(&mut b[..24]);
        let n = if vp::flag() { b.len() } else { vp::choice(24) as usize };
        b.truncate(n);
        let e = named(&b);
        match SsbhFile::read(&mut Cursor::new(&b[..])) {
            Ok(f) => {
                vp::check(e == Some(version(&f.data)), "accepted");
                vp::reach("accepted");
            }
            Err(_) => {
                vp::check(e.is_none(), "refused");
                vp::reach("refused");
            }
        }
    }
    /// reading as one type
    #[no_mangle]
    pub extern "C" fn h_typed() {
        vp::stub_format();
        let want = vp::param(0) as usize;
        let mut b = vec![0u8; 24 + 600];
        b[..4].copy_from_slice(b"HBSS");
        if vp::param(1) == 1 {
            vp::fill(&mut b[..4]);
            b[16..20].copy_from_slice(TYPES[want].0);
        } else {
            vp::fill(&mut b[16..20]);
        }
        vp::fill(&mut b[20..24]);
        let e = named(&b);
        macro_rules! r {
            ($($t:ty),*) => {{
                let mut k = 0;
                $(
                    if k == want {
                        use ssbh_lib::Version;
                        got(<$t>::read(&mut Cursor::new(&b[..])).map(|v| v.major_minor_version()), want, e);
                    }
                    k += 1;
                )*
                let _ = k;
            }};
        }
        r!(Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr);
    }
    fn got(r: Result<(u16, u16), ReadSsbhError>, want: usize, e: Option<(usize, (u16, u16))>) {
        match r {
            Ok(v) => {
                vp::check(e == Some((want, v)), "typed.accepted");
                vp::reach("accepted");
            }
            Err(ReadSsbhError::InvalidSsbhType) => {
                vp::check(e.map_or(false, |e| e.0 != want), "typed.wrong-type");
                vp::reach("wrong-type");
            }
            Err(_) => {
                vp::check(e.is_none(), "typed.refused");
                vp::reach("refused");
            }
        }
    }
    /// written headers, through the type itself and through the container type
    #[no_mangle]
    pub extern "C" fn h_write() {
        let (k, v) = (vp::param(0), vp::param(1));
        let x = || {
            let mut g = g(v, vp::param(2), 1, 1, 0, false);
            g.fixed = vp::param(3) != 0;
            g
        };
        let b = file(k, &mut x());
        let (magic, versions) = TYPES[k as usize];
        let v = versions[v as usize];
        vp::check(b[..4] == *b"HBSS", "magic");
        vp::check(b[4..16] == [64, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], "header");
        vp::check(b[16..20] == *magic, "type");
        vp::check(b[20..24] == [v.0 as u8, 0, v.1 as u8, 0], "version");
        if vp::param(3) != 0 {
            macro_rules! s {
                ($($n:literal $t:ident),*) => {
                    match k {
                        $($n => Ssbh::$t(Versioned { data: x().make::<$t>() }),)*
                        _ => return vp::fail("kind"),
                    }
                };
            }
            let f = SsbhFile { data: s!(0 Hlpb, 1 Matl, 2 Modl, 3 Mesh, 4 Skel, 5 Anim, 6 Nlst, 7 Nrpd, 8 Nufx, 9 Shdr) };
            let mut c = Cursor::new(Vec::new());
            vp::check(f.write(&mut c).is_ok() && vp::same(&b, c.get_ref()), "container");
            let r = SsbhFile::read(&mut Cursor::new(&b[..]));
            vp::check(r.map_or(false, |r| version(&r.data) == (k as usize, v)), "read");
        }
        vp::reach("written");
    }
}
