//! J02: the command line tools, run on a disk of the harness's own.
use crate::{
    disk::{disk, faults},
    files::{bytes, gen, File},
    vp,
};
use ssbh_data::prelude::*;
use ssbh_lib::prelude::*;
use std::io::Cursor;
extern crate data_json as _;
extern crate lib_json as _;

extern "Rust" {
    fn data_json_main();
    fn lib_json_main();
}
static mut ARGS: Vec<String> = Vec::new();
#[no_mangle]
fn vp_arg(k: usize) -> Option<String> {
    unsafe { ARGS.get(k).cloned() }
}
fn run(tool: u64, args: &[&str]) {
    unsafe {
        ARGS = args.iter().map(|a| a.to_string()).collect();
        if tool == 0 {
            lib_json_main()
        } else {
            data_json_main()
        }
    }
    vp::check(disk().open() == 0, "closed");
}
const DATA: [&str; 8] = ["nuhlpb", "numatb", "numdlb", "numshb", "nusktb", "nuanmb", "adjb", "numshexb"];
const LIB: [&str; 12] = ["nuhlpb", "numatb", "numdlb", "numshb", "nusktb", "nuanmb", "nulstb", "nurpdb", "nuflxb", "nushdb", "adjb", "numshexb"];

fn text(p: &str) -> bool {
    disk().get(p).map_or(false, |b| std::str::from_utf8(b).is_ok() && !b.is_empty())
}
/// operations are interrupted or partial
fn trouble() {
    disk().ops = 0;
    disk().faults = faults(5, 9);
}
/// out to JSON and in again; `b` is what was read, `want` what is to be stored
fn there(tool: u64, ext: &str, b: &[u8], want: &[u8]) {
    let named = vp::param(10) != 0;
    let input = format!("a.b/file.{ext}");
    disk().put(&input, b);
    disk().put("a.b/file", b"else");
    let (json, out, renamed);
    if named {
        // both are there already, and longer
        (json, out) = ("c/x.json".to_string(), "c/y.bin".to_string());
        disk().put(&json, &vec![b'}'; b.len() * 50 + 1000]);
        disk().put(&out, &vec![b'}'; want.len() + 100]);
        trouble();
        run(tool, &[&input, &json]);
    } else {
        json = format!("a.b/file.{ext}.json");
        trouble();
        run(tool, &[&input]);
        // so that the input stays
        out = format!("a.b/other.{ext}");
        renamed = "a.b/other.json";
        let t = disk().get(&json).cloned();
        vp::check(disk().files.len() == 3, "one file");
        if let Some(t) = t {
            disk().put(renamed, &t);
        }
    }
    vp::check(text(&json), "exported");
    vp::check(disk().get(&input).map_or(false, |f| vp::same(f, b)), "input");
    let n = disk().files.len();
    trouble();
    if named {
        run(tool, &[&json, &out]);
    } else {
        run(tool, &["a.b/other.json"]);
    }
    vp::check(disk().files.len() == n + !named as usize, "one file");
    match disk().get(&out) {
        Some(f) => vp::check(vp::same(f, want), "imported"),
        None => vp::fail("no file"),
    }
    vp::check(disk().get(&input).map_or(false, |f| vp::same(f, b)), "input");
    vp::check(disk().get("a.b/file").map_or(false, |f| f == b"else"), "other");
    vp::reach("there");
}
/// JSON writes a present pointer to a null string as null, like a null pointer (J01-nested-null)
fn excused(v: &Ssbh) -> bool {
    let Ssbh::Modl(m) = v else { return false };
    let ssbh_lib::formats::modl::Modl::V17 { animation_file_name, .. } = &m.data;
    matches!(animation_file_name.as_ref(), Some(s) if s.to_str().is_none())
}
#[no_mangle]
pub extern "C" fn t_lib() {
    let k = vp::param(0);
    let mut c = Cursor::new(Vec::new());
    match k {
        10 => {
            let v: Adj = gen().make();
            vp::check(v.write(&mut c).is_ok(), "write");
        }
        11 => {
            // (not all lengths of its arrays go together)
            let v: MeshEx = gen().make();
            let ok = v.write(&mut c).is_ok();
            vp::check(ok || vp::param(9) != 0, "write");
            vp::assume(ok);
        }
        _ => {
            let mut g = gen();
            g.top = Some(k as u32);
            let v: Ssbh = g.make();
            vp::assume(!excused(&v));
            vp::check(SsbhFile { data: v }.write(&mut c).is_ok(), "write");
        }
    }
    let mut b = c.into_inner();
    if vp::param(11) != 0 {
        // any byte of its text becomes any other below 0x80 (see J01-not-text), as long as the
        // file is still one that would be written
        let text: Vec<usize> = (20..b.len()).filter(|k| b[*k] >= b'0').collect();
        let at = text[vp::choice(text.len() as u64) as usize];
        let x = vp::u8();
        vp::assume(x < 0x80);
        b[at] = x;
        vp::assume(stable(k, &b));
    }
    there(0, LIB[k as usize], &b, &b);
}
fn stable(k: u64, b: &[u8]) -> bool {
    let (mut r, mut w) = (Cursor::new(b), Cursor::new(Vec::new()));
    let ok = match k {
        10 => Adj::read(&mut r).map_or(false, |v| v.write(&mut w).is_ok()),
        11 => MeshEx::read(&mut r).map_or(false, |v| v.write(&mut w).is_ok()),
        _ => SsbhFile::read(&mut r).map_or(false, |v| !excused(&v.data) && v.write(&mut w).is_ok()),
    };
    ok && vp::same(w.get_ref(), b)
}
fn data<T: File>() {
    let b = bytes(&T::make());
    let want = match T::get(&mut Cursor::new(&b)) {
        Some(v) => bytes(&v),
        None => {
            vp::fail("read");
            return;
        }
    };
    there(1, DATA[vp::param(0) as usize], &b, &want);
}
#[no_mangle]
pub extern "C" fn t_data() {
    match vp::param(0) {
        0 => data::<HlpbData>(),
        1 => data::<MatlData>(),
        2 => data::<ModlData>(),
        3 => data::<MeshData>(),
        4 => data::<SkelData>(),
        5 => data::<AnimData>(),
        6 => data::<AdjData>(),
        _ => data::<MeshExData>(),
    }
}
/// [tool, extension]: files of no format at all leave everything as it was
#[no_mangle]
pub extern "C" fn t_junk() {
    let (tool, k) = (vp::param(0), vp::param(1) as usize);
    let b = vp::bytes(24);
    // no magic of a format, no length of a mesh extension
    vp::assume(b[0] < 0x20);
    vp::assume(b[7] > 0);
    let input = format!("d/f.{}", if tool == 0 { LIB[k] } else { DATA[k] });
    disk().put(&input, &b);
    run(tool, &[&input]);
    vp::check(disk().files.len() == 1 && disk().get(&input).map_or(false, |f| vp::same(f, &b)), "untouched");
    vp::reach("junk");
}
