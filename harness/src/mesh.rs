//! M01..M06: mesh data.
use crate::{gen::G, vp};
use ssbh_data::mesh_data::{error::Error, AttributeData, BoneInfluence, MeshData, MeshObjectData, VectorData, VertexWeight};
use ssbh_lib::formats::mesh::*;
use std::io::Cursor;

fn vector<const N: usize>(n: usize, f: &mut dyn FnMut() -> f32) -> Vec<[f32; N]> {
    (0..n)
        .map(|_| {
            let mut v = [0.0; N];
            v.iter_mut().for_each(|x| *x = f());
            v
        })
        .collect()
}
fn data(comps: u64, n: usize, f: &mut dyn FnMut() -> f32) -> VectorData {
    match comps {
        2 => VectorData::Vector2(vector(n, f)),
        3 => VectorData::Vector3(vector(n, f)),
        _ => VectorData::Vector4(vector(n, f)),
    }
}
fn attr(name: &str, comps: u64, n: usize, f: &mut dyn FnMut() -> f32) -> AttributeData {
    AttributeData { name: name.into(), data: data(comps, n, f) }
}
fn flat(v: &VectorData) -> (usize, Vec<f32>) {
    match v {
        VectorData::Vector2(v) => (2, v.concat()),
        VectorData::Vector3(v) => (3, v.concat()),
        VectorData::Vector4(v) => (4, v.concat()),
    }
}
fn lists(o: &MeshObjectData) -> [&Vec<AttributeData>; 6] {
    [&o.positions, &o.normals, &o.binormals, &o.tangents, &o.texture_coordinates, &o.color_sets]
}
fn list(o: &mut MeshObjectData, u: usize) -> &mut Vec<AttributeData> {
    match u {
        0 => &mut o.positions,
        1 => &mut o.normals,
        2 => &mut o.binormals,
        3 => &mut o.tangents,
        4 => &mut o.texture_coordinates,
        _ => &mut o.color_sets,
    }
}
fn mesh(minor: u64, objects: Vec<MeshObjectData>) -> MeshData {
    MeshData { major_version: 1, minor_version: minor as u16, objects }
}
fn created(d: &MeshData) -> Mesh {
    match Mesh::try_from(d) {
        Ok(v) => v,
        Err(_) => {
            vp::fail("create");
            panic!()
        }
    }
}
fn back(m: &Mesh) -> MeshData {
    match MeshData::try_from(m) {
        Ok(v) => v,
        Err(_) => {
            vp::fail("convert");
            panic!()
        }
    }
}
/// attribute descriptor of any version
#[derive(Clone, Copy, PartialEq)]
struct D {
    usage: usize,
    /// bytes per component: 4 for f32, 2 for f16, 1 for normalized bytes
    size: usize,
    comps: usize,
    buffer: u32,
    offset: u32,
    sub: u64,
}
trait Desc {
    fn desc(&self) -> D;
    fn name(&self) -> Option<&[u8]>;
}
fn usage9(u: AttributeUsageV9) -> usize {
    match u {
        AttributeUsageV9::Position => 0,
        AttributeUsageV9::Normal => 1,
        AttributeUsageV9::Binormal => 2,
        AttributeUsageV9::Tangent => 3,
        AttributeUsageV9::TextureCoordinate => 4,
        AttributeUsageV9::ColorSet => 5,
    }
}
fn type8(t: AttributeDataTypeV8) -> (usize, usize) {
    match t {
        AttributeDataTypeV8::Float2 => (4, 2),
        AttributeDataTypeV8::Float3 => (4, 3),
        AttributeDataTypeV8::Float4 => (4, 4),
        AttributeDataTypeV8::HalfFloat4 => (2, 4),
        AttributeDataTypeV8::Byte4 => (1, 4),
    }
}
impl Desc for AttributeV8 {
    fn desc(&self) -> D {
        let usage = match self.usage {
            AttributeUsageV8::Position => 0,
            AttributeUsageV8::Normal => 1,
            AttributeUsageV8::Tangent => 3,
            AttributeUsageV8::TextureCoordinate => 4,
            AttributeUsageV8::ColorSet => 5,
        };
        let (size, comps) = type8(self.data_type);
        D { usage, size, comps, buffer: self.buffer_index, offset: self.buffer_offset, sub: self.subindex as u64 }
    }
    fn name(&self) -> Option<&[u8]> {
        None
    }
}
impl Desc for AttributeV9 {
    fn desc(&self) -> D {
        let (size, comps) = type8(self.data_type);
        D { usage: usage9(self.usage), size, comps, buffer: self.buffer_index, offset: self.buffer_offset, sub: self.subindex }
    }
    fn name(&self) -> Option<&[u8]> {
        vp::check(self.attribute_names.elements.len() == 1, "attribute.names");
        self.attribute_names.elements[0].to_str().map(|s| s.as_bytes())
    }
}
impl Desc for AttributeV10 {
    fn desc(&self) -> D {
        let (size, comps) = match self.data_type {
            AttributeDataTypeV10::Float2 => (4, 2),
            AttributeDataTypeV10::Float3 => (4, 3),
            AttributeDataTypeV10::Float4 => (4, 4),
            AttributeDataTypeV10::HalfFloat2 => (2, 2),
            AttributeDataTypeV10::HalfFloat4 => (2, 4),
            AttributeDataTypeV10::Byte4 => (1, 4),
        };
        D { usage: usage9(self.usage), size, comps, buffer: self.buffer_index, offset: self.buffer_offset, sub: self.subindex }
    }
    fn name(&self) -> Option<&[u8]> {
        vp::check(self.attribute_names.elements.len() == 1, "attribute.names");
        self.attribute_names.elements[0].to_str().map(|s| s.as_bytes())
    }
}
/// f32 of a half, from the definition of the format
fn widen(h: u16) -> u32 {
    let (s, e, m) = ((h as u32 & 0x8000) << 16, h as u32 >> 10 & 31, h as u32 & 0x3ff);
    let normal = s | (e + 112) << 23 | m << 13;
    let inf = s | 0x7f80_0000 | m << 13 | if m != 0 { 0x40_0000 } else { 0 };
    // subnormal: m * 2^-24, exact
    let tiny = s | (m as f32 * f32::from_bits(0x3380_0000)).to_bits();
    if e == 31 {
        inf
    } else if e == 0 {
        tiny
    } else {
        normal
    }
}
/// nearest half (ties to even), from the definition of the format
fn narrow(x: u32) -> u16 {
    let s = (x >> 16 & 0x8000) as u16;
    let a = x & 0x7fff_ffff;
    let (e, m) = ((a >> 23) as i32, a & 0x7f_ffff);
    if a > 0x7f80_0000 {
        return s | 0x7e00 | (m >> 13) as u16;
    }
    if a >= 0x477f_f000 {
        return s | 0x7c00;
    }
    if e >= 113 {
        // keep 10 of 23 mantissa bits
        let v = a - (112 << 23);
        return s | ((v + 0xfff + (v >> 13 & 1)) >> 13) as u16;
    }
    if e < 102 {
        return s;
    }
    let full = (m | 0x80_0000) as u64;
    let shift = (126 - e) as u32;
    let (q, r, half) = (full >> shift, full & ((1 << shift) - 1), 1u64 << (shift - 1));
    s | (q + (r > half || r == half && q & 1 == 1) as u64) as u16
}

/// an object whose shape is decided by `g`: `na` attributes of each kind by default
/// names and subindices of objects
fn name(i: usize) -> (String, u64) {
    match i {
        0 => ("a".into(), 0),
        1 => ("b".into(), 0),
        2 => ("a".into(), 1),
        3 => ("long".repeat(100), 0),
        _ => (["o".to_string(), ((i / 10) as u8 + b'0').to_string()].concat(), i as u64),
    }
}
fn object(g: &mut G, name: &str, sub: u64, n: usize, na: u64, comps: u64, idx: usize, fixed: bool) -> MeshObjectData {
    let mut o = MeshObjectData { name: name.into(), subindex: sub, ..Default::default() };
    let mut k = 0.0;
    for u in 0..6 {
        let alts = [na, (na + 1) % 3, (na + 2) % 3];
        let c = alts[g.pick(3) as usize];
        for i in 0..c {
            let q = 2 + (comps - 2 + g.pick(3)) % 3;
            let t = ["p", "nrm", "b", "tangent", "uvSet", "col"][u].to_string() + ["0", "One", "", "3", "x", "5"][i as usize];
            let a = attr(&t, q, n, &mut || {
                if fixed {
                    k += 0.125;
                    k
                } else {
                    vp::f32()
                }
            });
            list(&mut o, u).push(a);
        }
    }
    let any = lists(&o).iter().any(|l| !l.is_empty());
    o.vertex_indices = (0..if any && n > 0 { idx } else { 0 }).map(|i| (i % n) as u32).collect();
    o
}

macro_rules! inner {
    ($m:expr, |$i:ident| $e:expr) => {
        match $m {
            Mesh::V8($i) => $e,
            Mesh::V9($i) => $e,
            Mesh::V10($i) => $e,
        }
    };
}

#[cfg(feature = "m01")]
pub mod m01 {
    use super::*;
    /// what a value becomes when it is stored with the given size, as bits
    fn stored(x: f32, size: usize) -> u32 {
        match size {
            4 => x.to_bits(),
            _ => widen(narrow(x.to_bits())),
        }
    }
    fn same(d: &MeshData, m: &Mesh) {
        let r = back(m);
        vp::check(r.major_version == d.major_version && r.minor_version == d.minor_version, "version");
        vp::check(r.objects.len() == d.objects.len(), "objects");
        let types: Vec<Vec<D>> = inner!(m, |i| i.objects.elements.iter().map(|o| o.attributes.elements.iter().map(|a| a.desc()).collect()).collect());
        let v8 = d.minor_version == 8;
        for ((a, b), t) in d.objects.iter().zip(&r.objects).zip(&types) {
            vp::check(vp::same(a.name.as_bytes(), b.name.as_bytes()), "name");
            vp::check(a.subindex == b.subindex && a.sort_bias == b.sort_bias, "identity");
            vp::check(vp::same(a.parent_bone_name.as_bytes(), b.parent_bone_name.as_bytes()), "parent");
            vp::check(a.disable_depth_test == b.disable_depth_test && a.disable_depth_write == b.disable_depth_write, "depth");
            vp::check(a.vertex_indices.len() == b.vertex_indices.len(), "indices");
            vp::check(a.vertex_indices.iter().zip(&b.vertex_indices).fold(true, |x, (p, q)| x & (p == q)), "indices");
            for (u, (p, q)) in lists(a).iter().zip(lists(b)).enumerate() {
                if v8 && u == 2 {
                    vp::check(q.is_empty(), "binormals");
                    continue;
                }
                vp::check(p.len() == q.len(), "attributes");
                for (i, (x, y)) in p.iter().zip(q).enumerate() {
                    if v8 {
                        let n = format!("{}{}", ["Position", "Normal", "", "Tangent", "TextureCoordinate", "colorSet"][u], i);
                        vp::check(vp::same(n.as_bytes(), y.name.as_bytes()), "attribute.name");
                    } else {
                        vp::check(vp::same(x.name.as_bytes(), y.name.as_bytes()), "attribute.name");
                    }
                    let ((cx, x), (cy, y)) = (flat(&x.data), flat(&y.data));
                    vp::check(cx == cy && x.len() == y.len(), "attribute.count");
                    let size = match t.iter().filter(|d| d.usage == u).nth(i) {
                        Some(d) => d.size,
                        None => {
                            vp::fail("attribute.missing");
                            panic!()
                        }
                    };
                    vp::check(u != 0 || size == 4, "position.precision");
                    for (x, y) in x.iter().zip(&y) {
                        if size == 1 {
                            // quantized to the nearest 255th
                            let c = x.clamp(0.0, 1.0) as f64;
                            let e = *y as f64 - c;
                            vp::check(x.is_nan() || e <= 0.5001 / 255.0 && e >= -0.5001 / 255.0, "color");
                        } else if size == 2 {
                            let e = stored(*x, 2);
                            let nan = |b: u32| b & 0x7fff_ffff > 0x7f80_0000;
                            vp::check(y.to_bits() == e || nan(e) && nan(y.to_bits()), "half");
                        } else {
                            vp::check(y.to_bits() == x.to_bits(), "float");
                        }
                    }
                }
            }
        }
        vp::reach("same");
    }
    /// any combination of attributes with fixed values that are exact in every type
    #[no_mangle]
    pub extern "C" fn g_shape() {
        let mut g = G::new();
        g.dev = vp::param(1);
        let (na, comps, n, k) = (vp::param(2), vp::param(3), vp::param(4) as usize, vp::param(5) as usize);
        let d = mesh(vp::param(0), (0..k).map(|i| object(&mut g, &name(i).0, name(i).1, n + i, na, comps, 3 + 3 * i, true)).collect());
        let m = created(&d);
        same(&d, &m);
    }
    /// any value of one colour component that is stored as one of 8 bytes: [minor, component, first byte / 8]
    #[no_mangle]
    pub extern "C" fn g_color() {
        let (minor, comp, lo) = (vp::param(0), vp::param(1) as usize, vp::param(2) * 8);
        let x = vp::f32();
        vp::assume(x.to_bits() & 0x7fff_ffff <= 0x7f80_0000);
        let mut c = [0.25; 4];
        c[comp] = x;
        let o = MeshObjectData { name: "o".into(), color_sets: vec![AttributeData { name: "c".into(), data: VectorData::Vector4(vec![c]) }], ..Default::default() };
        let m = created(&mesh(minor, vec![o]));
        let b = inner!(&m, |i| i.vertex_buffers.elements[1].elements[comp]);
        vp::assume(b as u64 / 8 * 8 == lo);
        let b = vp::conc(b as u64);
        // the nearest 255th, up to rounding
        let (min, max) = ((b as f32 - 0.5001) / 255.0, (b as f32 + 0.5001) / 255.0);
        vp::check((b == 0 || x >= min) && (b == 255 || x <= max), "color");
        let r = back(&m);
        let (_, v) = flat(&r.objects[0].color_sets[0].data);
        let mut w = [64.0 / 255.0; 4];
        w[comp] = b as f32 / 255.0;
        vp::check(v.len() == 4 && v.iter().zip(&w).all(|(p, q)| (p - q).abs() < 1e-6), "color.read");
        vp::reach("color");
    }
    /// arbitrary values of one attribute; the others fixed
    #[no_mangle]
    pub extern "C" fn g_value() {
        let (minor, u, comps, n) = (vp::param(0), vp::param(1) as usize, vp::param(2), vp::param(3) as usize);
        let mut g = G::new();
        g.dev = 0;
        let mut o = object(&mut g, "a", 7, n, 1, 4, 3, true);
        let mut k = 0;
        let only = vp::param(4);
        *list(&mut o, u) = vec![attr("x", comps, n, &mut || {
            k += 1;
            if k - 1 == only || only == 99 {
                vp::f32()
            } else {
                0.25
            }
        })];
        o.name = String::from("obj");
        o.subindex = vp::u64();
        o.sort_bias = vp::u32() as i32;
        (o.disable_depth_test, o.disable_depth_write) = (vp::bool(), vp::bool());
        g.dev = (only == 99) as u64;
        o.parent_bone_name = g.make();
        let d = mesh(minor, vec![o]);
        let m = created(&d);
        same(&d, &m);
    }
}

#[cfg(feature = "m02")]
pub mod m02 {
    use super::*;
    struct O {
        attrs: Vec<D>,
        names: Vec<String>,
        n: u64,
        idx: u64,
        off: [u64; 4],
        stride: [u64; 4],
        ioff: u64,
        isize: u64,
    }
    fn summary<A: Desc + for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite>(o: &MeshObject<A>) -> O {
        O {
            attrs: o.attributes.elements.iter().map(|a| a.desc()).collect(),
            names: o.attributes.elements.iter().map(|a| a.name().map(|n| String::from_utf8_lossy(n).to_string()).unwrap_or_default()).collect(),
            n: o.vertex_count as u64,
            idx: o.vertex_index_count as u64,
            off: [o.vertex_buffer0_offset as u64, o.vertex_buffer1_offset as u64, o.vertex_buffer2_offset as u64, o.vertex_buffer3_offset as u64],
            stride: [o.stride0 as u64, o.stride1 as u64, o.stride2 as u64, o.stride3 as u64],
            ioff: o.index_buffer_offset as u64,
            isize: match o.draw_element_type {
                DrawElementType::UnsignedShort => 2,
                DrawElementType::UnsignedInt => 4,
            },
        }
    }
    fn disjoint(r: &[(u64, u64)]) -> bool {
        r.iter().enumerate().all(|(i, a)| a.0 == a.1 || r[..i].iter().all(|b| b.0 == b.1 || a.1 <= b.0 || b.1 <= a.0))
    }
    fn check_mesh(d: &MeshData, m: &Mesh) {
        let (objs, bufs, sizes, ib, ilen): (Vec<O>, Vec<&Vec<u8>>, &Vec<u32>, &Vec<u8>, u64) = inner!(m, |i| (
            i.objects.elements.iter().map(summary).collect(),
            i.vertex_buffers.elements.iter().map(|b| &b.elements).collect(),
            &i.buffer_sizes.elements,
            &i.index_buffer.elements,
            i.polygon_index_size
        ));
        vp::check(objs.len() == d.objects.len(), "objects");
        vp::check(bufs.len() == sizes.len() && bufs.iter().zip(sizes).all(|(b, s)| b.len() as u64 == *s as u64), "buffer.sizes");
        vp::check(ib.len() as u64 == ilen, "index.size");
        for (o, s) in objs.iter().zip(&d.objects) {
            let n = lists(s).iter().flat_map(|l| l.iter()).map(|a| a.data.len()).next().unwrap_or(0);
            vp::check(o.n == n as u64, "vertex.count");
            vp::check(o.idx == s.vertex_indices.len() as u64, "index.count");
            for b in 0..4 {
                if o.n == 0 {
                    continue;
                }
                // a buffer no attribute uses may be described without being stored
                if o.attrs.iter().any(|a| a.buffer == b as u32) {
                    vp::check(b < bufs.len() && o.off[b] + o.stride[b] * o.n <= bufs[b].len() as u64, "vertex.range");
                }
            }
            vp::check(o.ioff + o.isize * o.idx <= ilen, "index.range");
            let used: Vec<(u64, u64)> = o
                .attrs
                .iter()
                .map(|a| {
                    vp::check(a.buffer < 4, "attribute.buffer");
                    let e = a.offset as u64 + (a.size * a.comps) as u64;
                    vp::check(e <= o.stride[a.buffer as usize], "attribute.range");
                    // the four buffers as separate parts of one line
                    ((a.buffer as u64) << 32 | a.offset as u64, ((a.buffer as u64) << 32) + e)
                })
                .collect();
            vp::check(disjoint(&used), "attribute.overlap");
            // usages in the order of the data, with counting subindices
            let v8 = d.minor_version == 8;
            let src = lists(s);
            vp::check(o.attrs.len() == (0..6).filter(|u| !v8 || *u != 2).map(|u| src[u].len()).sum::<usize>(), "attributes");
            let mut seen = [0usize; 6];
            for (a, name) in o.attrs.iter().zip(&o.names) {
                let k = seen[a.usage];
                seen[a.usage] += 1;
                vp::check(a.sub == k as u64, "attribute.subindex");
                vp::check(k < src[a.usage].len(), "attribute.usage");
                let x = &src[a.usage][k];
                vp::check(v8 || vp::same(name.as_bytes(), x.name.as_bytes()), "attribute.name");
                let (c, v) = flat(&x.data);
                vp::check(c == a.comps, "attribute.components");
                // the bytes at the described positions are this attribute's values
                let mut ok = true;
                for (i, x) in v.iter().enumerate() {
                    let b = a.buffer as usize;
                    let p = o.off[b] + o.stride[b] * (i / c) as u64 + a.offset as u64 + ((i % c) * a.size) as u64;
                    let raw = &bufs[b][p as usize..][..a.size];
                    ok &= match a.size {
                        4 => vp::same(raw, &x.to_le_bytes()),
                        2 => vp::same(raw, &narrow(x.to_bits()).to_le_bytes()),
                        // only for fixed values
                        _ => raw[0] == (x.clamp(0.0, 1.0) * 255.0 + 0.5) as u8,
                    };
                }
                vp::check(ok, "attribute.bytes");
            }
            let mut ok = true;
            for (i, x) in s.vertex_indices.iter().enumerate() {
                let p = (o.ioff + o.isize * i as u64) as usize;
                ok &= vp::same(&ib[p..][..o.isize as usize], &x.to_le_bytes()[..o.isize as usize]);
                ok &= o.isize == 4 || *x < 65536;
            }
            vp::check(ok, "index.bytes");
        }
        for b in 0..4 {
            vp::check(disjoint(&objs.iter().map(|o| (o.off[b], o.off[b] + o.stride[b] * o.n)).collect::<Vec<_>>()), "vertex.overlap");
        }
        vp::check(disjoint(&objs.iter().map(|o| (o.ioff, o.ioff + o.isize * o.idx)).collect::<Vec<_>>()), "index.overlap");
        vp::reach("layout");
    }
    /// [minor, decisions, attributes per kind, components, vertices, objects, symbolic values, deviating object, no indices in that object]
    #[no_mangle]
    pub extern "C" fn y_shape() {
        let (minor, na, comps, n, k, sym, which) = (vp::param(0), vp::param(2), vp::param(3), vp::param(4) as usize, vp::param(5) as usize, vp::param(6) == 1, vp::param(7) as usize);
        let mut g = G::new();
        let mut os: Vec<_> = (0..k)
            .map(|i| {
                g.dev = if i == which { vp::param(1) } else { 0 };
                object(&mut g, &name(i).0, name(i).1, n + i, na, comps, if vp::param(8) == 1 && i == which { 0 } else { 3 + 3 * i }, true)
            })
            .collect();
        if sym {
            // symbolic values wherever the stored type is a float
            for o in os.iter_mut() {
                for u in 0..6 {
                    for a in list(o, u) {
                        match &mut a.data {
                            VectorData::Vector2(v) if u == 0 || minor < 10 => v.iter_mut().flatten().for_each(|x| *x = vp::f32()),
                            VectorData::Vector3(v) => v.iter_mut().flatten().for_each(|x| *x = vp::f32()),
                            VectorData::Vector4(v) if u == 0 => v.iter_mut().flatten().for_each(|x| *x = vp::f32()),
                            _ => {}
                        }
                    }
                }
            }
        }
        let d = mesh(minor, os);
        let m = created(&d);
        check_mesh(&d, &m);
    }
    /// an object with 32 bit indices between two with 16 bit ones
    #[no_mangle]
    pub extern "C" fn y_wide() {
        let mut g = G::new();
        g.dev = 0;
        let mut os = vec![object(&mut g, "a", 0, 3, 1, 2, 3, true), MeshObjectData { name: "w".into(), ..Default::default() }, object(&mut g, "z", 0, 2, 1, 2, 6, true)];
        os[1].texture_coordinates = vec![attr("uv", 2, 65540, &mut || 0.5)];
        os[1].vertex_indices = vec![0, vp::choice(2) as u32 * 65537, 65535, 65536, 65539, 1];
        let d = mesh(vp::param(0), os);
        let m = created(&d);
        check_mesh(&d, &m);
    }
}

#[cfg(feature = "m03")]
pub mod m03 {
    use super::*;
    fn expect(d: &MeshData) {
        let o = &d.objects[d.objects.len() - 1];
        let lens: Vec<usize> = lists(o).iter().flat_map(|l| l.iter()).map(|a| a.data.len()).collect();
        let equal = lens.iter().all(|l| *l == lens[0]);
        let n = lens.first().copied().unwrap_or(0) as u32;
        let tri = o.vertex_indices.len() % 3 == 0;
        let inside = o.vertex_indices.iter().fold(true, |x, i| x & (*i < n));
        match Mesh::try_from(d) {
            Ok(m) => {
                vp::check(tri && equal && inside, "accepted");
                let r = back(&m);
                let p = &r.objects[r.objects.len() - 1].vertex_indices;
                vp::check(p.len() == o.vertex_indices.len(), "count");
                vp::check(p.iter().zip(&o.vertex_indices).fold(true, |x, (a, b)| x & (a == b)), "indices");
                let narrow = inner!(&m, |i| i.objects.elements[i.objects.elements.len() - 1].draw_element_type == DrawElementType::UnsignedShort);
                let fits = o.vertex_indices.iter().fold(true, |x, i| x & (*i < 65536));
                vp::check(!narrow || fits, "width");
                if narrow {
                    vp::reach("narrow");
                } else {
                    vp::reach("wide");
                }
            }
            Err(Error::NonTriangulatedFaces { vertex_index_count }) => {
                vp::check(!tri && vertex_index_count == o.vertex_indices.len(), "faces");
                vp::reach("faces");
            }
            Err(Error::AttributeDataLengthMismatch) => {
                vp::check(!equal, "lengths");
                vp::reach("lengths");
            }
            Err(Error::VertexIndexOutOfRange { vertex_index, vertex_count }) => {
                vp::check(!inside && vertex_index >= vertex_count && vertex_count == n as usize, "range");
                vp::check(o.vertex_indices.iter().fold(false, |x, i| x | (*i as usize == vertex_index)), "range");
                vp::reach("range");
            }
            Err(_) => vp::fail("refused"),
        }
    }
    /// [minor, vertices, indices, objects before]
    #[no_mangle]
    pub extern "C" fn i_idx() {
        let (minor, n, k, before) = (vp::param(0), vp::param(1) as usize, vp::param(2), vp::param(3));
        let mut g = G::new();
        g.dev = 0;
        let mut os: Vec<_> = (0..before).map(|i| object(&mut g, "first", i, 2, 1, 2, 3 * i as usize, true)).collect();
        let mut o = MeshObjectData { name: "o".into(), ..Default::default() };
        if n > 0 {
            o.texture_coordinates = vec![attr("uv", 2, n, &mut || 0.5)];
        }
        o.vertex_indices = (0..k).map(|_| vp::u32()).collect();
        os.push(o);
        expect(&mesh(minor, os));
    }
    /// [minor, attributes per usage]: attribute lengths 0..2 in any combination with one deviation
    #[no_mangle]
    pub extern "C" fn i_len() {
        let mut o = MeshObjectData { name: "o".into(), ..Default::default() };
        let mut dev = 2;
        for u in 0..6 {
            for _ in 0..vp::param(1) {
                let mut l = 2;
                if dev > 0 && vp::flag() {
                    l = 3 * vp::choice(2) as usize;
                    dev -= 1;
                }
                list(&mut o, u).push(attr("x", 2 + (u as u64) % 3, l, &mut || 0.25));
            }
        }
        o.vertex_indices = (0..3 * vp::choice(2)).map(|_| vp::u32()).collect();
        expect(&mesh(vp::param(0), vec![o]));
    }
}

#[cfg(feature = "m04")]
pub mod m04 {
    use super::*;
    fn weights(n: u64, index: &mut dyn FnMut() -> u32) -> Vec<VertexWeight> {
        (0..n).map(|_| VertexWeight { vertex_index: index(), vertex_weight: vp::f32() }).collect()
    }
    fn same(a: &[BoneInfluence], b: &[BoneInfluence]) {
        vp::check(a.len() == b.len(), "bones");
        for (x, y) in a.iter().zip(b) {
            vp::check(vp::same(x.bone_name.as_bytes(), y.bone_name.as_bytes()), "bone.name");
            vp::check(x.vertex_weights.len() == y.vertex_weights.len(), "weights");
            let eq = x.vertex_weights.iter().zip(&y.vertex_weights).fold(true, |t, (p, q)| t & (p.vertex_index == q.vertex_index) & (p.vertex_weight.to_bits() == q.vertex_weight.to_bits()));
            vp::check(eq, "weights");
        }
    }
    fn check_groups(d: &MeshData, m: &Mesh) {
        // one group per object, sorted by name and subindex, with the largest number of bones of any vertex
        let g: Vec<(Vec<u8>, u64, usize)> = inner!(m, |i| i.rigging_buffers.elements.iter().map(|r| (r.mesh_object_name.to_str().unwrap_or("?").as_bytes().to_vec(), r.mesh_object_subindex, r.flags.max_influences as usize)).collect());
        vp::check(g.len() == d.objects.len(), "groups");
        vp::check(g.windows(2).all(|w| (&w[0].0, w[0].1) <= (&w[1].0, w[1].1)), "sorted");
        for o in &d.objects {
            let mut most = 0;
            for b in &o.bone_influences {
                for w in &b.vertex_weights {
                    most = most.max(o.bone_influences.iter().filter(|c| c.vertex_weights.iter().any(|x| x.vertex_index == w.vertex_index)).count());
                }
            }
            vp::check(g.iter().filter(|x| vp::same(&x.0, o.name.as_bytes()) && x.1 == o.subindex).count() == 1, "group");
            vp::check(g.iter().filter(|x| vp::same(&x.0, o.name.as_bytes()) && x.1 == o.subindex).all(|x| x.2 == most), "max.influences");
        }
    }
    fn go(d: &MeshData) {
        let big = d.objects.iter().flat_map(|o| &o.bone_influences).flat_map(|b| &b.vertex_weights).any(|w| w.vertex_index > 65535);
        let dup = d.objects.iter().enumerate().any(|(i, o)| d.objects[..i].iter().any(|p| p.name == o.name && p.subindex == o.subindex));
        match Mesh::try_from(d) {
            Ok(m) => {
                vp::check(!dup && !(big && d.minor_version == 10), "accepted");
                let r = back(&m);
                vp::check(r.objects.len() == d.objects.len(), "objects");
                for (a, b) in d.objects.iter().zip(&r.objects) {
                    vp::check(a.name == b.name && a.subindex == b.subindex, "identity");
                    same(&a.bone_influences, &b.bone_influences);
                }
                check_groups(d, &m);
                vp::reach("same");
            }
            Err(Error::SkinWeightVertexIndexExceedsLimit { vertex_index, .. }) => {
                vp::check(big && d.minor_version == 10 && vertex_index > 65535, "limit");
                vp::reach("limit");
            }
            Err(Error::DuplicateSubindex { mesh_object_name, mesh_object_subindex }) => {
                vp::check(dup, "duplicate");
                vp::check(d.objects.iter().filter(|o| o.name == mesh_object_name && o.subindex == mesh_object_subindex).count() > 1, "duplicate");
                vp::reach("duplicate");
            }
            Err(_) => vp::fail("refused"),
        }
    }
    const INDICES: [u32; 10] = [0, 1, 2, 255, 256, 65534, 65535, 65536, 65537, u32::MAX];
    /// [minor, bones, weights per bone]: vertex indices around the limits, any weights
    #[no_mangle]
    pub extern "C" fn w_rt() {
        let (minor, nb, nw) = (vp::param(0), vp::param(1), vp::param(2));
        let mut g = G::new();
        let mut o = MeshObjectData { name: "o".into(), ..Default::default() };
        let mut k = 0;
        let at = vp::choice(nb * nw + 1);
        o.bone_influences = (0..nb)
            .map(|_| BoneInfluence {
                bone_name: g.make(),
                vertex_weights: weights(nw, &mut || {
                    k += 1;
                    if k - 1 == at {
                        INDICES[vp::choice(10) as usize]
                    } else {
                        k as u32 % 3
                    }
                }),
            })
            .collect();
        go(&mesh(minor, vec![o]));
    }
    /// [minor, bones, weights per bone, objects]: many of them, any number at the first and the last
    #[no_mangle]
    pub extern "C" fn w_many() {
        let (minor, nb, nw, no) = (vp::param(0), vp::param(1), vp::param(2), vp::param(3));
        let os = (0..no)
            .map(|i| {
                let mut o = MeshObjectData { name: ["o", "p"][i as usize % 2].into(), subindex: i, ..Default::default() };
                o.bone_influences = (0..nb)
                    .map(|j| BoneInfluence {
                        bone_name: if j % 10 == 0 { "long".repeat(70) } else { ["b".to_string(), ((j / 10) as u8 + b'0').to_string()].concat() },
                        // no vertex has more than 255 bones
                        vertex_weights: (0..nw).map(|w| VertexWeight { vertex_index: (j / 200 * 1000 + w) as u32, vertex_weight: if (i + j + w == 0) || (i + 1, j + 1, w + 1) == (no, nb, nw) { vp::f32() } else { (i + j + w) as f32 } }).collect(),
                    })
                    .collect();
                o
            })
            .collect();
        let d = mesh(minor, os);
        match Mesh::try_from(&d) {
            Ok(m) => {
                let r = back(&m);
                vp::check(r.objects.len() == d.objects.len(), "objects");
                for (a, b) in d.objects.iter().zip(&r.objects) {
                    vp::check(a.name == b.name && a.subindex == b.subindex, "identity");
                    same(&a.bone_influences, &b.bone_influences);
                }
                vp::reach("same");
            }
            Err(_) => vp::fail("refused"),
        }
    }
    /// [minor, objects]: names and subindices in any combination
    #[no_mangle]
    pub extern "C" fn w_ids() {
        let mut i = 0;
        let many = vp::param(1) > 2;
        let os = (0..vp::param(1))
            .map(|_| {
                let mut o = MeshObjectData { name: ["a", "b", "ab"][vp::choice(3) as usize].into(), subindex: [0, 1 << 32, 1, u64::MAX, u32::MAX as u64][vp::choice(if many { 3 } else { 5 }) as usize], ..Default::default() };
                i += 1;
                // each object has its own bones, one of them without vertices
                o.bone_influences = vec![BoneInfluence { bone_name: format!("bone{i}"), vertex_weights: weights(i % 3, &mut || 0) }];
                if i == 2 {
                    o.bone_influences = Vec::new();
                }
                if i == 3 {
                    o.bone_influences.push(BoneInfluence { bone_name: "bone1".into(), vertex_weights: weights(2, &mut || 0) });
                }
                o
            })
            .collect();
        go(&mesh(vp::param(0), os));
    }
    /// [minor, weights]: stored weights, any bytes, are read exactly
    #[no_mangle]
    pub extern "C" fn w_read() {
        let (minor, n) = (vp::param(0), vp::param(1));
        let o = MeshObjectData { name: "o".into(), subindex: 7, bone_influences: vec![BoneInfluence { bone_name: "x".into(), vertex_weights: vec![] }], ..Default::default() };
        let mut m = created(&mesh(minor, vec![o]));
        let mut want = Vec::new();
        match &mut m {
            Mesh::V8(m) => m.rigging_buffers.elements[0].buffers.elements[0].data.elements = (0..n).map(|_| one(&mut want)).collect(),
            Mesh::V9(m) => m.rigging_buffers.elements[0].buffers.elements[0].data.elements = (0..n).map(|_| one(&mut want)).collect(),
            Mesh::V10(m) => {
                let mut b = Vec::new();
                for _ in 0..n {
                    let (i, w) = (vp::u16(), vp::u32());
                    b.extend(i.to_le_bytes());
                    b.extend(w.to_le_bytes());
                    want.push((i as u32, w));
                }
                m.rigging_buffers.elements[0].buffers.elements[0].data = b.into();
            }
        }
        let r = back(&m);
        let w = &r.objects[0].bone_influences[0].vertex_weights;
        vp::check(w.len() == want.len(), "weights");
        vp::check(w.iter().zip(&want).fold(true, |t, (p, q)| t & (p.vertex_index == q.0) & (p.vertex_weight.to_bits() == q.1)), "weights");
        vp::reach("read");
    }
    fn one(want: &mut Vec<(u32, u32)>) -> VertexWeightV8 {
        let w = VertexWeightV8 { vertex_index: vp::u32(), vertex_weight: vp::f32() };
        want.push((w.vertex_index, w.vertex_weight.to_bits()));
        w
    }
}

#[cfg(feature = "m05")]
pub mod m05 {
    use super::*;
    fn zero_bounds() -> BoundingInfo {
        match created(&mesh(10, vec![])) {
            Mesh::V10(m) => m.bounding_info,
            _ => panic!(),
        }
    }
    fn obj<A: for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite>(attributes: Vec<A>) -> MeshObject<A> {
        MeshObject {
            name: "o".into(),
            subindex: 0,
            parent_bone_name: "".into(),
            vertex_count: 0,
            vertex_index_count: 0,
            unk2: 3,
            vertex_buffer0_offset: 0,
            vertex_buffer1_offset: 0,
            vertex_buffer2_offset: 0,
            vertex_buffer3_offset: 0,
            stride0: 0,
            stride1: 0,
            stride2: 0,
            stride3: 0,
            index_buffer_offset: 0,
            unk8: 4,
            draw_element_type: DrawElementType::UnsignedShort,
            use_vertex_skinning: 0,
            sort_bias: 0,
            depth_flags: DepthFlags { disable_depth_test: 0, disable_depth_write: 0 },
            bounding_info: zero_bounds(),
            attributes: attributes.into(),
        }
    }
    fn inner<A: for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite, W: for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite>(o: MeshObject<A>, bufs: Vec<Vec<u8>>, ib: Vec<u8>, rig: Vec<RiggingGroup<W>>) -> MeshInner<A, W> {
        MeshInner {
            model_name: "".into(),
            bounding_info: zero_bounds(),
            unk1: 0,
            objects: vec![o].into(),
            buffer_sizes: vec![0; 4].into(),
            polygon_index_size: 0,
            vertex_buffers: bufs.into_iter().map(|b| b.into()).collect::<Vec<ssbh_lib::SsbhByteBuffer>>().into(),
            index_buffer: ib.into(),
            rigging_buffers: rig.into(),
        }
    }
    /// value bits of the component stored at p
    fn value(b: &[u8], p: usize, size: usize) -> u32 {
        match size {
            4 => u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]),
            2 => widen(u16::from_le_bytes([b[p], b[p + 1]])),
            _ => (b[p] as f32 / 255.0).to_bits(),
        }
    }
    fn usage(u: u64) -> AttributeUsageV9 {
        [AttributeUsageV9::Position, AttributeUsageV9::Normal, AttributeUsageV9::Binormal, AttributeUsageV9::Tangent, AttributeUsageV9::TextureCoordinate, AttributeUsageV9::ColorSet][u as usize]
    }
    /// One attribute with any descriptor over buffers of the given length.
    /// [type, vertex buffer count, buffer length, which: 0 offset and base, 1 stride, 2 count, 3 buffer index, symbolic bytes, buffer]
    #[no_mangle]
    pub extern "C" fn d_attr() {
        let (ty, nb, len, which) = (vp::param(0), vp::param(1) as usize, vp::param(2) as usize, vp::param(3));
        let (dt, size, comps) = [
            (AttributeDataTypeV10::Float2, 4, 2),
            (AttributeDataTypeV10::Float3, 4, 3),
            (AttributeDataTypeV10::Float4, 4, 4),
            (AttributeDataTypeV10::HalfFloat2, 2, 2),
            (AttributeDataTypeV10::HalfFloat4, 2, 4),
            (AttributeDataTypeV10::Byte4, 1, 4),
        ][ty as usize];
        let sym = vp::param(4) == 1;
        let bufs: Vec<Vec<u8>> = (0..nb).map(|k| if sym { vp::bytes(len) } else { (0..len).map(|i| (i * 7 + k * 3 + 1) as u8).collect() }).collect();
        let u = vp::choice(6);
        let mut a = AttributeV10 { usage: usage(u), data_type: dt, buffer_index: 0, buffer_offset: 0, subindex: vp::u64(), name: "n".into(), attribute_names: vec![].into() };
        let mut stride = (size * comps) as u32;
        let mut base = 0;
        let mut count = 1u32;
        match which {
            0 => (a.buffer_offset, base) = (vp::u32(), vp::u32()),
            1 => (stride, count) = (vp::u32(), 2),
            2 => count = vp::u32(),
            _ => a.buffer_index = vp::u32(),
        }
        if which != 3 {
            a.buffer_index = vp::param(5) as u32;
        }
        let (index, off) = (a.buffer_index, a.buffer_offset as u64);
        let mut o = obj(vec![a]);
        o.vertex_count = count;
        (o.stride0, o.stride1, o.stride2, o.stride3) = (stride, stride, stride, stride);
        match index {
            0 => o.vertex_buffer0_offset = base,
            1 => o.vertex_buffer1_offset = base,
            2 => o.vertex_buffer2_offset = base,
            3 => o.vertex_buffer3_offset = base,
            _ => {}
        }
        if which != 3 {
            // the other buffers' settings do not matter
            if index != 0 {
                (o.stride0, o.vertex_buffer0_offset) = (1, 9);
            }
            if index != 2 {
                (o.stride2, o.vertex_buffer2_offset) = (3, 8);
            }
        }
        let m = Mesh::V10(inner(o, bufs.clone(), vec![], vec![]));
        let r = MeshData::try_from(&m);
        let last = off + base as u64 + (count as u64).saturating_sub(1) * stride as u64;
        let good = (index as usize) < nb && index < 4 && (count == 0 || stride > 0 && last + (size * comps) as u64 <= len as u64);
        match r {
            Err(_) => {
                vp::check(!good, "refused");
                vp::reach("error");
            }
            Ok(d) => {
                vp::check(good, "accepted");
                let l = lists(&d.objects[0]);
                vp::check(l.iter().enumerate().all(|(i, l)| l.len() == (i == u as usize) as usize), "usage");
                let (c, v) = flat(&l[u as usize][0].data);
                vp::check(c == comps && v.len() as u64 == count as u64 * comps as u64, "count");
                let b = &bufs[vp::conc(index as u64) as usize];
                let p0 = vp::conc(off + base as u64) as usize;
                let stride = vp::conc(stride as u64) as usize;
                let nan = |b: u32| b & 0x7fff_ffff > 0x7f80_0000;
                let mut ok = true;
                for (i, x) in v.iter().enumerate() {
                    let e = value(b, p0 + stride * (i / comps) + i % comps * size, size);
                    ok &= x.to_bits() == e || size == 2 && nan(e) && nan(x.to_bits());
                }
                vp::check(ok, "values");
                vp::reach("value");
            }
        }
    }
    /// Several attributes of version 1.8 and 1.9 files with small but arbitrary descriptors.
    /// [minor, attributes, buffer length]
    #[no_mangle]
    pub extern "C" fn d_many() {
        let (minor, na, len) = (vp::param(0), vp::param(1), vp::param(2) as usize);
        let bufs: Vec<Vec<u8>> = (0..2).map(|k| (0..len).map(|i| (i * 7 + k * 3 + 1) as u8).collect()).collect();
        let count = vp::choice(3) as u32;
        let mut want = Vec::new();
        let mut good = true;
        let mut v8 = Vec::new();
        let mut v9 = Vec::new();
        let strides = [4 + vp::choice(2) as u32 * 5, vp::choice(3) as u32 * 6];
        let bases = [vp::choice(2) as u32 * 3, 1];
        for i in 0..na {
            let b = vp::choice(2) as usize;
            let off = vp::choice(3) as u32 * 2;
            let half = vp::flag();
            let (data_type, size) = if half { (AttributeDataTypeV8::HalfFloat4, 2) } else { (AttributeDataTypeV8::Byte4, 1) };
            let u = [0, 3, 4, 5][((i + vp::choice(2)) % 4) as usize];
            good &= count == 0 || strides[b] > 0 && (bases[b] + off + (count - 1) * strides[b]) as usize + 4 * size <= len;
            want.push((u, b, off, size));
            let usage8 = [AttributeUsageV8::Position, AttributeUsageV8::Normal, AttributeUsageV8::Normal, AttributeUsageV8::Tangent, AttributeUsageV8::TextureCoordinate, AttributeUsageV8::ColorSet][u];
            v8.push(AttributeV8 { usage: usage8, data_type, buffer_index: b as u32, buffer_offset: off, subindex: i as u32 });
            v9.push(AttributeV9 { usage: usage(u as u64), data_type, buffer_index: b as u32, buffer_offset: off, subindex: i, name: "n".into(), attribute_names: vec![ssbh_lib::SsbhString::from("attr"), "x".into()].into() });
        }
        macro_rules! finish {
            ($a:expr) => {{
                let mut o = obj($a);
                o.vertex_count = count;
                (o.stride0, o.stride1) = (strides[0], strides[1]);
                (o.vertex_buffer0_offset, o.vertex_buffer1_offset) = (bases[0], bases[1]);
                inner(o, bufs.clone(), vec![], vec![])
            }};
        }
        let m = if minor == 8 { Mesh::V8(finish!(v8)) } else { Mesh::V9(finish!(v9)) };
        match MeshData::try_from(&m) {
            Err(_) => {
                vp::check(!good, "refused");
                vp::reach("error");
            }
            Ok(d) => {
                vp::check(good, "accepted");
                let mut seen = [0; 6];
                let mut ok = true;
                for (u, b, off, size) in want {
                    let l = lists(&d.objects[0])[u];
                    vp::check(seen[u] < l.len(), "usage");
                    let a = &l[seen[u]];
                    seen[u] += 1;
                    vp::check(minor == 8 || a.name == "attr", "name");
                    let (c, v) = flat(&a.data);
                    vp::check(c == 4 && v.len() == 4 * count as usize, "count");
                    let nan = |b: u32| b & 0x7fff_ffff > 0x7f80_0000;
                    for (i, x) in v.iter().enumerate() {
                        let e = value(&bufs[b], (bases[b] + off) as usize + strides[b] as usize * (i / 4) + i % 4 * size, size);
                        ok &= x.to_bits() == e || size == 2 && nan(e) && nan(x.to_bits());
                    }
                }
                vp::check(ok, "values");
                vp::check(lists(&d.objects[0]).iter().zip(seen).all(|(l, s)| l.len() == s), "usage");
                vp::reach("value");
            }
        }
    }
    /// any index range over an index buffer: [type, length]
    #[no_mangle]
    pub extern "C" fn d_index() {
        let (wide, len) = (vp::param(0) == 1, vp::param(1) as usize);
        let ib = vp::bytes(len);
        let mut o = obj(Vec::<AttributeV10>::new());
        let (off, count) = (vp::u32(), vp::u32());
        (o.index_buffer_offset, o.vertex_index_count, o.vertex_count) = (off, count, vp::u32());
        o.draw_element_type = if wide { DrawElementType::UnsignedInt } else { DrawElementType::UnsignedShort };
        let size = if wide { 4 } else { 2 };
        let m = Mesh::V10(inner(o, vec![], ib.clone(), vec![]));
        let good = count == 0 || off as u64 + count as u64 * size as u64 <= len as u64;
        match MeshData::try_from(&m) {
            Err(_) => {
                vp::check(!good, "refused");
                vp::reach("error");
            }
            Ok(d) => {
                vp::check(good, "accepted");
                let v = &d.objects[0].vertex_indices;
                vp::check(v.len() as u64 == count as u64, "count");
                if !v.is_empty() {
                    let off = vp::conc(off as u64) as usize;
                    let ok = v.iter().enumerate().fold(true, |t, (i, x)| t & vp::same(&ib[off + i * size..][..size], &x.to_le_bytes()[..size]) & (wide || *x < 65536));
                    vp::check(ok, "values");
                }
                vp::reach("value");
            }
        }
    }
    /// rigging data of any bytes and missing or damaged names: [bytes]
    #[no_mangle]
    pub extern "C" fn d_rig() {
        let n = vp::param(0) as usize;
        let raw = vp::bytes(n);
        let name = |k: u64| -> ssbh_lib::SsbhString {
            match k {
                0 => "o".into(),
                1 => "other".into(),
                2 => binrw::BinReaderExt::read_le(&mut Cursor::new([0u8; 8])).unwrap(),
                _ => ssbh_lib::SsbhString::from_bytes(&[0xff, 0xfe]),
            }
        };
        let (obj_name, group, bone, sub) = (vp::choice(4), vp::choice(4), vp::choice(4), vp::choice(2));
        let rig = RiggingGroup {
            mesh_object_name: name(group),
            mesh_object_subindex: sub,
            flags: RiggingFlags { max_influences: vp::u8(), unk1: vp::u8() },
            buffers: vec![BoneBuffer { bone_name: name(bone), data: ssbh_lib::SsbhByteBuffer::from_vec(raw.clone()) }].into(),
        };
        let mut o = obj(Vec::<AttributeV10>::new());
        o.name = name(obj_name);
        o.parent_bone_name = name(vp::choice(4));
        let m = Mesh::V10(inner(o, vec![], vec![], vec![rig]));
        match MeshData::try_from(&m) {
            Err(_) => {
                // only a bone without a usable name is refused
                vp::check(bone >= 2, "refused");
                vp::reach("error");
            }
            Ok(d) => {
                let b = &d.objects[0].bone_influences;
                if obj_name == group && group < 2 {
                    vp::check(b.len() == (sub == 0) as usize, "attached");
                } else if obj_name < 2 || group < 2 {
                    vp::check(b.is_empty(), "attached");
                }
                for x in b {
                    vp::check(x.vertex_weights.len() == n / 6, "weights");
                    let ok = x.vertex_weights.iter().enumerate().fold(true, |t, (i, w)| {
                        t & (w.vertex_index == u16::from_le_bytes([raw[6 * i], raw[6 * i + 1]]) as u32) & vp::same(&raw[6 * i + 2..6 * i + 6], &w.vertex_weight.to_le_bytes())
                    });
                    vp::check(ok, "weights");
                }
                vp::reach("value");
            }
        }
    }
}
