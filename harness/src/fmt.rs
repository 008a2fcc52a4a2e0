//! F01..F06, L05: files of every format survive writing and reading, and are laid out without overlap.
use crate::{gen::G, rec::Rec, vp};
use ssbh_lib::prelude::*;
use std::io::Cursor;

pub fn gen() -> G {
    // 0: version, 1: deviations, 2: default enum variant, 3: array length, 4: string length, 5: NaN allowed
    let mut g = G::new();
    g.top = Some(vp::param(0) as u32).filter(|k| *k != 99);
    g.dev = vp::param(1);
    g.var = vp::param(2) as u32;
    g.len = vp::param(3);
    g.slen = vp::param(4);
    g.nan = vp::param(5) != 0;
    g.maxlen = vp::param(6);
    g
}


macro_rules! rt {
    ($name:ident, $t:ty) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let mut g = gen();
            let nan = g.nan;
            let v: $t = g.make();
            let mut c = Cursor::new(Vec::new());
            if v.write(&mut c).is_err() {
                return vp::fail("write");
            }
            let b = c.into_inner();
            vp::log_bytes(&b);
            let mut r = Cursor::new(&b[..]);
            match <$t>::read(&mut r) {
                Err(_) => vp::fail("read"),
                Ok(w) => {
                    if !nan {
                        vp::check(v == w, "equal");
                    }
                    let mut c = Cursor::new(Vec::new());
                    vp::check(w.write(&mut c).is_ok(), "rewrite");
                    vp::check(vp::same(&b, c.get_ref()), "bytes");
                    vp::reach("rt");
                }
            }
        }
    };
}
macro_rules! lay {
    ($name:ident, $t:ty, $exempt:expr, $gap:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let mut g = gen();
            let v: $t = g.make();
            let mut c = Rec::default();
            c.exempt = $exempt;
            if v.write(&mut c).is_err() {
                return vp::fail("write");
            }
            vp::log_bytes(&c.data);
            vp::check(!c.twice, "written-twice");
            vp::check(c.gap() < $gap, "gap");
            vp::reach("layout");
        }
    };
}
#[cfg(feature = "f01")]
rt!(f_modl, Modl);
#[cfg(feature = "f01")]
rt!(f_skel, Skel);
#[cfg(feature = "f01")]
rt!(f_hlpb, Hlpb);
#[cfg(feature = "f01")]
rt!(f_nlst, Nlst);
#[cfg(feature = "f01")]
rt!(f_nufx, Nufx);
#[cfg(feature = "f01")]
rt!(f_shdr, Shdr);
#[cfg(feature = "f02")]
rt!(f_matl, Matl);
#[cfg(feature = "f03")]
rt!(f_mesh, Mesh);
#[cfg(feature = "f04")]
rt!(f_anim, Anim);
#[cfg(feature = "f05")]
rt!(f_nrpd, Nrpd);
#[cfg(feature = "f06")]
rt!(f_adj, Adj);
#[cfg(feature = "l05")]
lay!(l_modl, Modl, 0, 8);
#[cfg(feature = "l05")]
lay!(l_skel, Skel, 0, 8);
#[cfg(feature = "l05")]
lay!(l_hlpb, Hlpb, 0, 8);
#[cfg(feature = "l05")]
lay!(l_nlst, Nlst, 0, 8);
#[cfg(feature = "l05")]
lay!(l_nufx, Nufx, 0, 8);
#[cfg(feature = "l05")]
lay!(l_shdr, Shdr, 0, 8);
#[cfg(feature = "l05")]
lay!(l_matl, Matl, 0, 8);
#[cfg(feature = "l05")]
lay!(l_mesh, Mesh, 0, 8);
#[cfg(feature = "l05")]
lay!(l_anim, Anim, 0, 8);
#[cfg(feature = "l05")]
lay!(l_nrpd, Nrpd, 0, 8);
#[cfg(feature = "l05")]
lay!(l_adj, Adj, 0, 8);
#[cfg(feature = "l05")]
#[no_mangle]
pub extern "C" fn l_meshex() {
    let mut g = gen();
    let v: MeshEx = g.make();
    let mut c = Rec::default();
    // the length field at the start is a placeholder first
    c.exempt = 8;
    if v.write(&mut c).is_err() {
        return vp::reach("refused");
    }
    vp::log_bytes(&c.data);
    vp::check(!c.twice, "written-twice");
    vp::check(c.gap() < 16, "gap");
    vp::check(c.data.len() % 16 == 0, "length");
    vp::reach("layout");
}
#[cfg(feature = "f06")]
#[no_mangle]
pub extern "C" fn f_meshex() {
    let mut g = gen();
    let nan = g.nan;
    let v: MeshEx = g.make();
    let n = v.entries.as_ref().map_or(0, |e| e.len());
    let nf = v.entry_flags.as_ref().map_or(0, |e| e.0.len());
    let ng = v.mesh_object_groups.as_ref().map_or(0, |e| e.len());
    let mut c = Cursor::new(Vec::new());
    if v.write(&mut c).is_err() {
        vp::check(n != nf, "refused");
        vp::check(c.get_ref().is_empty(), "partial");
        return vp::reach("refused");
    }
    vp::check(n == nf, "accepted");
    let b = c.into_inner();
    vp::log_bytes(&b);
    let u32_at = |p: usize| u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as usize;
    vp::check(b.len() >= 64 && b.len() % 16 == 0, "length");
    vp::check(u32_at(0) == b.len() && u32_at(4) == 0, "header.length");
    vp::check(u32_at(8) == n, "header.entries");
    vp::check(u32_at(12) == ng, "header.groups");
    let mut r = Cursor::new(&b[..]);
    match MeshEx::read(&mut r) {
        Err(_) => vp::fail("read"),
        Ok(w) => {
            if !nan {
                vp::check(v == w, "equal");
            }
            let mut c = Cursor::new(Vec::new());
            vp::check(w.write(&mut c).is_ok(), "rewrite");
            vp::check(vp::same(&b, c.get_ref()), "bytes");
            vp::reach("rt");
        }
    }
}
