//! P01: files on disk and unreliable readers and writers.
use crate::{
    disk::{disk, fate, faults, Fault},
    files::{bytes, File},
    vp,
};
use ssbh_data::prelude::*;
use ssbh_lib::prelude::*;
use std::io::{Cursor, Error, ErrorKind, Read, Seek, SeekFrom, Write};

/// [type, variant.., how the disk misbehaves twice, 1: the path holds a longer file]
fn save<T: File>() {
    let v = T::make();
    let b = bytes(&v);
    // how many operations it takes
    vp::check(v.save("dir/trial"), "trial");
    let n = disk().ops;
    *disk() = Default::default();
    let d = disk();
    d.put("dir/other", b"else");
    if vp::param(7) != 0 {
        let mut old = b.clone();
        old.iter_mut().for_each(|x| *x = !*x);
        old.extend([7; 60]);
        d.put("dir/file", &old);
    }
    d.faults = faults(5, n + 1);
    let ok = v.save("dir/file");
    if ok {
        vp::check(disk().get("dir/file").map_or(false, |f| vp::same(f, &b)), "stored");
        vp::reach("stored");
    } else {
        // nothing but a failing disk is an excuse
        vp::check(disk().struck, "save");
        vp::reach("failed");
    }
    vp::check(disk().open() == 0, "closed");
    vp::check(disk().get("dir/other").map_or(false, |f| f == b"else"), "other");
    vp::check(disk().files.iter().filter(|f| f.0 != b"\0").count() == 2 || !ok, "files");
}
/// .., 1: there is no such file
fn load<T: File>() {
    let v = T::make();
    let b = bytes(&v);
    disk().put("dir/file", &b);
    vp::check(T::load("dir/file").is_some(), "trial");
    let n = disk().ops;
    *disk() = Default::default();
    let d = disk();
    d.put("dir/file", &b);
    d.faults = faults(5, n + 2);
    let missing = vp::param(7) != 0;
    match T::load(if missing { "dir/none" } else { "dir/file" }) {
        Some(w) => {
            vp::check(!missing && vp::same(&bytes(&w), &b), "loaded");
            vp::reach("loaded");
        }
        None => {
            vp::check(disk().struck | missing, "load");
            vp::reach("failed");
        }
    }
    vp::check(disk().open() == 0, "closed");
    vp::check(disk().files.len() == 1 && vp::same(&disk().files[0].1, &b), "untouched");
}
/// a stream that misbehaves
struct Flaky {
    c: Cursor<Vec<u8>>,
    ops: u64,
    faults: [(u64, Fault); 2],
    struck: bool,
}
impl Flaky {
    fn new(b: Vec<u8>, n: u64) -> Self {
        Flaky { c: Cursor::new(b), ops: 0, faults: if n == 0 { [(0, Fault::None); 2] } else { faults(5, n) }, struck: false }
    }
    fn step(&mut self, n: usize, moves: bool) -> Result<usize, Error> {
        self.ops += 1;
        match fate(&self.faults, self.ops - 1) {
            Fault::Error | Fault::Once => {
                self.struck = true;
                Err(ErrorKind::Other.into())
            }
            Fault::Interrupted if moves => Err(ErrorKind::Interrupted.into()),
            Fault::Short => Ok(n.min(1)),
            Fault::Most | Fault::Half if n < 2 => Ok(n),
            Fault::Most => Ok(n - 1),
            Fault::Half => Ok(n / 2),
            _ => Ok(n),
        }
    }
}
impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> Result<usize, Error> {
        let n = self.step(b.len(), true)?;
        self.c.read(&mut b[..n])
    }
}
impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> Result<usize, Error> {
        let n = self.step(b.len(), true)?;
        self.c.write(&b[..n])
    }
    fn flush(&mut self) -> Result<(), Error> {
        Ok(())
    }
}
impl Seek for Flaky {
    fn seek(&mut self, p: SeekFrom) -> Result<u64, Error> {
        self.step(0, false)?;
        self.c.seek(p)
    }
}
/// [.., how the writer misbehaves twice]
fn put<T: File>() {
    let v = T::make();
    let b = bytes(&v);
    let mut w = Flaky::new(Vec::new(), 0);
    vp::check(v.put(&mut w), "trial");
    let mut w = Flaky::new(Vec::new(), w.ops + 1);
    let ok = v.put(&mut w);
    if ok {
        vp::check(!w.struck, "ignored");
        vp::check(vp::same(w.c.get_ref(), &b), "stored");
        vp::reach("stored");
    } else {
        vp::check(w.struck, "save");
        vp::reach("failed");
    }
}
fn get<T: File>() {
    let v = T::make();
    let b = bytes(&v);
    let mut r = Flaky::new(b.clone(), 0);
    vp::check(T::get(&mut r).is_some(), "trial");
    let mut r = Flaky::new(b.clone(), r.ops + 1);
    match T::get(&mut r) {
        Some(w) => {
            vp::check(vp::same(&bytes(&w), &b), "loaded");
            vp::reach("loaded");
        }
        None => {
            vp::check(r.struck, "load");
            vp::reach("failed");
        }
    }
}
macro_rules! each {
    ($f:ident) => {
        match vp::param(0) {
            0 => $f::<Hlpb>(),
            1 => $f::<Matl>(),
            2 => $f::<Modl>(),
            3 => $f::<Mesh>(),
            4 => $f::<Skel>(),
            5 => $f::<Anim>(),
            6 => $f::<Nlst>(),
            7 => $f::<Nrpd>(),
            8 => $f::<Nufx>(),
            9 => $f::<Shdr>(),
            10 => $f::<Adj>(),
            11 => $f::<MeshEx>(),
            12 => $f::<SsbhFile>(),
            20 => $f::<HlpbData>(),
            21 => $f::<MatlData>(),
            22 => $f::<ModlData>(),
            23 => $f::<MeshData>(),
            24 => $f::<SkelData>(),
            25 => $f::<AnimData>(),
            26 => $f::<AdjData>(),
            _ => $f::<MeshExData>(),
        }
    };
}
#[no_mangle]
pub extern "C" fn p_save() {
    each!(save)
}
#[no_mangle]
pub extern "C" fn p_load() {
    each!(load)
}
#[no_mangle]
pub extern "C" fn p_put() {
    each!(put)
}
#[no_mangle]
pub extern "C" fn p_get() {
    each!(get)
}
/// data that no file of the format can hold: an error, and the file that was there stays
#[no_mangle]
pub extern "C" fn p_refuse() {
    use ssbh_data::{anim_data::*, matl_data::MatlData, mesh_data::*, skel_data::*};
    disk().put("dir/file", b"precious");
    if vp::param(0) == 5 {
        // more or fewer flags than entries
        let mut g = crate::gen::G::new();
        (g.dev, g.maxlen, g.fixed) = (2, 3, true);
        let v: MeshEx = g.make();
        if v.write(&mut Cursor::new(Vec::new())).is_ok() {
            return;
        }
        vp::check(!v.save("dir/file"), "accepted");
        vp::check(disk().files.len() == 1 && disk().get("dir/file").map_or(false, |f| f == b"precious"), "kept");
        return vp::reach("refused");
    }
    let (major_version, minor_version) = (vp::u16(), vp::u16());
    let known = |v: &[(u16, u16)]| v.iter().fold(false, |k, v| k | ((v.0 == major_version) & (v.1 == minor_version)));
    let ok = match vp::param(0) {
        0 => {
            vp::assume(!known(&[(2, 0), (2, 1)]));
            AnimData { major_version, minor_version, final_frame_index: 1.0, groups: vec![] }.save("dir/file")
        }
        1 => {
            vp::assume(!known(&[(1, 8), (1, 9), (1, 10)]));
            MeshData { major_version, minor_version, objects: vec![] }.save("dir/file")
        }
        2 => {
            vp::assume(!known(&[(1, 5), (1, 6)]));
            MatlData { major_version, minor_version, entries: vec![] }.save("dir/file")
        }
        3 => {
            let p = vp::u32() as usize;
            vp::assume(p > 0x7fff);
            let bones = vec![BoneData { name: "a".into(), transform: [[0.0; 4]; 4], parent_index: Some(p), billboard_type: BillboardType::Disabled }];
            SkelData { major_version: 1, minor_version: 0, bones }.save("dir/file")
        }
        _ => {
            let i = vp::u32();
            vp::assume(i > 0);
            let positions = vec![AttributeData { name: "Position0".into(), data: VectorData::Vector3(vec![[0.0; 3]]) }];
            let o = MeshObjectData { name: "a".into(), positions, vertex_indices: vec![0, 0, i], ..Default::default() };
            MeshData { major_version: 1, minor_version: 10, objects: vec![o] }.save("dir/file")
        }
    };
    vp::check(!ok, "accepted");
    vp::check(disk().files.len() == 1 && disk().get("dir/file").map_or(false, |f| f == b"precious"), "kept");
    vp::reach("refused");
}
