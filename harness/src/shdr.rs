//! H01: shader metadata of program binaries.
use crate::vp::{self, Rd};
use ssbh_data::shdr_data::{Attribute, DataType, MetaData, ShaderBinary, ShdrData};
use ssbh_lib::formats::shdr::{Shader, ShaderStage, Shdr};
use std::io::Cursor;

const HEAD: usize = 288;
const CODE_LEN: usize = 2504;
const CODE: usize = 2896;
/// where the counts and offsets of the four tables are, and the size and used size of an entry
const TABLES: [(usize, usize, usize); 4] = [(HEAD + 44, 108, 76), (HEAD + 52, 164, 104), (HEAD + 60, 92, 60), (HEAD + 68, 92, 60)];
const STRINGS: usize = HEAD + 104;

struct File {
    b: Vec<u8>,
    /// positions of the stored names
    names: Vec<usize>,
}
fn put(b: &mut [u8], at: usize, v: u32) {
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}
fn sym(b: &mut [u8], at: usize, n: usize) {
    vp::fill(&mut b[at..at + n]);
}
/// A valid file: tables of n entries, names of slen characters. The first entry of every table has
/// an arbitrary type if types is set; all other numbers are arbitrary, unless fixed.
fn file(n: [usize; 4], slen: usize, code: usize, types: usize, raw: bool, fixed: bool) -> File {
    let mut b = vec![0u8; CODE + code];
    let mut names = Vec::new();
    put(&mut b, HEAD + 4, 400);
    // tables in another order than in the header, with gaps
    let mut at = 16;
    let mut pos = [0; 4];
    if n.iter().sum::<usize>() > 10 {
        // many entries are placed behind the code
        at = CODE + code - 400;
        b.resize(b.len() + (0..4).map(|t| n[t] * (TABLES[t].1 + slen + 3)).sum::<usize>() + 100, 0);
    }
    for t in [2, 0, 3, 1] {
        pos[t] = at;
        at += n[t] * TABLES[t].1 + 8;
    }
    let strings = at + 4;
    put(&mut b, STRINGS, strings as u32);
    let total: usize = n.iter().sum();
    let mut k = total;
    for t in 0..4 {
        let (head, size, _) = TABLES[t];
        put(&mut b, head, n[t] as u32);
        put(&mut b, head + 4, pos[t] as u32);
        for i in 0..n[t] {
            let e = 400 + pos[t] + i * size;
            k -= 1;
            // names in reverse order
            let s = k * (slen + 3);
            put(&mut b, e, s as u32);
            put(&mut b, e + 4, slen as u32 + 1);
            names.push(e);
            let s = 400 + strings + s;
            if fixed {
                b[s..s + slen].fill(b'a' + k as u8);
            } else {
                sym(&mut b, s, slen);
                if !raw {
                    let bad = b[s..s + slen].iter().fold(0, |x, c| x | (c & 0x80));
                    vp::assume(bad == 0);
                }
            }
            let words = match t {
                0 => 9,
                1 => 16,
                _ => 5,
            };
            for w in 0..words {
                let p = e + 40 + 4 * w;
                if t > 0 && w == 0 {
                    if types == t && i == 0 {
                        sym(&mut b, p, 4);
                    } else {
                        put(&mut b, p, [4, 7, 20, 22, 36, 37, 38, 39, 50, 67, 68, 69, 73, 103][(t + 2 * i) % 14]);
                    }
                } else if fixed {
                    put(&mut b, p, (100 * t + 10 * i + w) as u32);
                } else {
                    sym(&mut b, p, 4);
                }
            }
        }
    }
    put(&mut b, CODE_LEN, code as u32);
    File { b, names }
}
fn get(b: &[u8], at: u64) -> Option<u32> {
    if at.checked_add(4)? > b.len() as u64 {
        return None;
    }
    let at = vp::conc(at) as usize;
    b.get(at..at + 4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]))
}
/// Entries: name, type, words
type Entry = (String, Vec<u32>);
fn model(b: &[u8]) -> Option<[Vec<Entry>; 4]> {
    let entry = get(b, HEAD as u64 + 4)? as u64;
    let strings = get(b, STRINGS as u64)? as u64 + entry;
    let mut r = [vec![], vec![], vec![], vec![]];
    let code = get(b, CODE_LEN as u64)? as u64;
    if code > 0 && CODE as u64 + code > b.len() as u64 {
        return None;
    }
    for t in 0..4 {
        let (head, size, used) = TABLES[t];
        let count = get(b, head as u64)? as u64;
        let at = entry + get(b, head as u64 + 4)? as u64;
        let mut i = 0;
        while i < count {
            let e = at + i * size as u64;
            // the unused end of the last entry may be missing
            if e + used as u64 > b.len() as u64 {
                return None;
            }
            let s = get(b, e)? as u64 + strings;
            let len = (get(b, e + 4)? as u64).saturating_sub(1);
            if len > 0 && s + len > b.len() as u64 {
                return None;
            }
            let name = if len == 0 {
                String::new()
            } else {
                let (s, len) = (vp::conc(s) as usize, vp::conc(len) as usize);
                String::from_utf8_lossy(&b[s..s + len]).into_owned()
            };
            let mut w = Vec::new();
            for k in 0..(used as u64 - 40) / 4 {
                w.push(get(b, e + 40 + 4 * k)?);
            }
            if t > 0 && kind(w[0]).is_none() {
                return None;
            }
            r[t].push((name, w));
            i += 1;
        }
    }
    Some(r)
}
fn kind(n: u32) -> Option<DataType> {
    use DataType::*;
    Some(match n {
        0 => Boolean,
        4 => Int,
        7 => Unk7,
        20 => UnsignedInt,
        22 => UVec3,
        36 => Float,
        37 => Vector2,
        38 => Vector3,
        39 => Vector4,
        50 => Matrix4x4,
        67 => Sampler2d,
        68 => Sampler3d,
        69 => SamplerCube,
        73 => Sampler2dArray,
        103 => Image2d,
        _ => return None,
    })
}
fn name(a: &str, b: &str) {
    vp::check(vp::same(a.as_bytes(), b.as_bytes()), "name");
}
fn attributes(a: &[Attribute], b: &[Entry]) {
    vp::check(a.len() == b.len(), "attributes");
    for (a, (n, w)) in a.iter().zip(b) {
        name(&a.name, n);
        vp::check(Some(a.data_type) == kind(w[0]) && a.location == w[2] as i32, "attribute");
    }
}
fn compare(m: &MetaData, want: &[Vec<Entry>; 4]) {
    vp::check(m.buffers.len() == want[0].len(), "buffers");
    for (a, (n, w)) in m.buffers.iter().zip(&want[0]) {
        name(&a.name, n);
        vp::check(a.used_size_in_bytes == w[0] && a.uniform_count == w[1] && [a.unk4, a.unk5, a.unk6, a.unk7] == [w[2] as i32, w[3] as i32, w[4] as i32, w[5] as i32], "buffer");
    }
    vp::check(m.uniforms.len() == want[1].len(), "uniforms");
    for (a, (n, w)) in m.uniforms.iter().zip(&want[1]) {
        name(&a.name, n);
        vp::check(Some(a.data_type) == kind(w[0]), "uniform.type");
        vp::check(a.buffer_index == w[1] as i32 && a.uniform_buffer_offset == w[2] as i32 && a.unk11 == w[9] as i32, "uniform");
    }
    attributes(&m.inputs, &want[2]);
    attributes(&m.outputs, &want[3]);
}
fn run(b: &[u8]) {
    vp::alloc_limit((8 * b.len()).max(1 << 15));
    let r = MetaData::read(&mut Rd::new(b));
    vp::alloc_limit(1 << 28);
    match (r, model(b)) {
        (Ok(m), Some(want)) => {
            compare(&m, &want);
            vp::reach("read");
        }
        (Err(_), None) => vp::reach("error"),
        (Ok(_), None) => vp::fail("accepted"),
        (Err(_), Some(_)) => vp::fail("refused"),
    }
}
/// [buffers, uniforms, inputs, outputs, name length, table with an arbitrary type, any name bytes]
#[no_mangle]
pub extern "C" fn h_valid() {
    let n = [0, 1, 2, 3].map(|i| vp::param(i) as usize);
    let f = file(n, vp::param(4) as usize, 3, vp::param(5) as usize, vp::param(6) != 0, false);
    run(&f.b);
}
/// One stored number is arbitrary. [which, smallest or 0, largest or 0]
#[no_mangle]
pub extern "C" fn h_field() {
    let which = vp::param(0) as usize;
    let mut f = file([1; 4], 2, 3, 0, false, true);
    let at = match which {
        0 => HEAD + 4,
        1..=8 => HEAD + 44 + 4 * (which - 1),
        9 => STRINGS,
        10 => CODE_LEN,
        _ => f.names[(which - 11) / 2] + 4 * ((which - 11) % 2),
    };
    let v = vp::u32();
    vp::assume(v as u64 >= vp::param(1) && v as u64 <= vp::param(2));
    put(&mut f.b, at, v);
    run(&f.b);
}
/// The file is cut anywhere. [shortest, longest]
#[no_mangle]
pub extern "C" fn h_cut() {
    let f = file([1; 4], 2, 3, 0, false, true);
    let (lo, hi) = (vp::param(0), vp::param(1).min(f.b.len() as u64));
    let n = lo + vp::choice(hi - lo + 1);
    run(&f.b[..n as usize]);
}
/// Through the file structure: [buffers.., name length]. The second shader is cut.
#[no_mangle]
pub extern "C" fn h_shdr() {
    let f = file([1, 1, 1, 1], 2, 3, 0, false, false);
    let g = file([0, 1, 0, 2], 3, 1, 0, false, true);
    let lens = [g.b.len(), g.b.len() - 1, CODE, CODE - 1, CODE_LEN + 4, CODE_LEN + 3, 600, HEAD + 108, HEAD + 107, HEAD, HEAD - 1, 4, 0];
    let n = lens[vp::choice(lens.len() as u64) as usize];
    let cut = g.b[..n].to_vec();
    let good = model(&cut);
    let mut names = [0u8; 4];
    vp::fill(&mut names);
    names.iter_mut().for_each(|c| *c = *c & 0x3f | 0x40);
    let s = |k: usize| std::str::from_utf8(&names[2 * k..2 * k + 2]).unwrap_or("").into();
    let shader = |k: usize, stage, b: &[u8]| Shader { name: s(k), shader_stage: stage, unk3: 0, shader_binary: b.to_vec().into(), binary_size: b.len() as u64 };
    let shdr = Shdr::V12 { shaders: vec![shader(0, ShaderStage::Geometry, &f.b), shader(1, ShaderStage::Compute, &cut)].into() };
    match (ShdrData::try_from(&shdr), good) {
        (Ok(d), Some(want)) => {
            vp::check(d.shaders.len() == 2, "shaders");
            for (i, x) in d.shaders.iter().enumerate() {
                vp::check(vp::same(x.name.as_bytes(), &names[2 * i..2 * i + 2]), "shader.name");
                vp::check(x.shader_stage == [ShaderStage::Geometry, ShaderStage::Compute][i], "stage");
            }
            if let Some(w) = model(&f.b) {
                compare(&d.shaders[0].meta_data, &w);
            } else {
                vp::fail("model");
            }
            compare(&d.shaders[1].meta_data, &want);
            vp::reach("read");
        }
        (Err(_), None) => vp::reach("error"),
        _ => vp::fail("shader"),
    }
}
/// The program code is the stored bytes. [length]
#[no_mangle]
pub extern "C" fn h_code() {
    let mut f = file([0; 4], 1, vp::param(0) as usize, 0, false, true);
    vp::fill(&mut f.b[CODE..]);
    let n = vp::u32();
    put(&mut f.b, CODE_LEN, n);
    let len = f.b.len() - CODE;
    vp::alloc_limit(8 * f.b.len());
    match ShaderBinary::read(&mut Cursor::new(&f.b[..])) {
        Ok(s) => {
            vp::check(n as usize <= len, "code.accepted");
            let n = vp::conc(n as u64) as usize;
            vp::check(s.program_code.len() == n && vp::same(&s.program_code, &f.b[CODE..CODE + n]), "code");
            vp::reach("code");
        }
        Err(_) => {
            vp::check(n as usize > len, "code.refused");
            vp::reach("error");
        }
    }
}
