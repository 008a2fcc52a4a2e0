//! A01..A05: animation data.
use crate::{gen::G, vp};
use ssbh_data::anim_data::{error::Error, AnimData, GroupData, GroupType, NodeData, TrackData, TrackValues, Transform, TransformFlags, UvTransform};
use ssbh_data::{Vector3, Vector4};
use ssbh_lib::formats::anim::{Anim, CompressionType, Group, Node, TrackFlags, TrackTypeV2, TrackV2};
use std::io::Cursor;

fn v3(f: &mut dyn FnMut() -> f32) -> Vector3 {
    Vector3::new(f(), f(), f())
}
fn v4(f: &mut dyn FnMut() -> f32) -> Vector4 {
    Vector4::new(f(), f(), f(), f())
}
fn transform(f: &mut dyn FnMut() -> f32) -> Transform {
    Transform { scale: v3(f), rotation: v4(f), translation: v3(f) }
}
fn uv(f: &mut dyn FnMut() -> f32) -> UvTransform {
    UvTransform { scale_u: f(), scale_v: f(), rotation: f(), translate_u: f(), translate_v: f() }
}
/// `n` values of the given kind; integers and booleans are arbitrary
fn values(kind: u64, n: usize, f: &mut dyn FnMut() -> f32) -> TrackValues {
    some_values(kind, n, f, 0, n)
}
/// integers and booleans are arbitrary for `m` frames from `at` on
fn some_values(kind: u64, n: usize, f: &mut dyn FnMut() -> f32, at: usize, m: usize) -> TrackValues {
    let r = 0..n;
    let sym = |i: usize| i >= at && i < at + m;
    match kind {
        0 => TrackValues::Transform(r.map(|_| transform(f)).collect()),
        1 => TrackValues::UvTransform(r.map(|_| uv(f)).collect()),
        2 => TrackValues::Float(r.map(|_| f()).collect()),
        3 => TrackValues::PatternIndex(r.map(|i| if sym(i) { vp::u32() } else { 7 * i as u32 + 40 }).collect()),
        4 => TrackValues::Boolean(r.map(|i| if sym(i) { vp::bool() } else { i % 3 == 0 }).collect()),
        _ => TrackValues::Vector4(r.map(|_| v4(f)).collect()),
    }
}
fn track(name: &str, values: TrackValues) -> TrackData {
    TrackData { name: name.into(), compensate_scale: false, transform_flags: TransformFlags::default(), values }
}
fn anim(tracks: Vec<TrackData>) -> AnimData {
    AnimData {
        major_version: 2,
        minor_version: 0,
        final_frame_index: 100.0,
        groups: vec![GroupData { group_type: GroupType::Transform, nodes: vec![NodeData { name: "n".into(), tracks }] }],
    }
}
fn saved(d: &AnimData) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    vp::check(d.write(&mut c).is_ok(), "save");
    c.into_inner()
}
fn loaded(b: &[u8]) -> AnimData {
    match AnimData::read(&mut Cursor::new(b)) {
        Ok(v) => v,
        Err(_) => {
            vp::fail("load");
            panic!()
        }
    }
}
fn created(d: &AnimData) -> Anim {
    match Anim::try_from(d) {
        Ok(v) => v,
        Err(_) => {
            vp::fail("create");
            panic!()
        }
    }
}
fn parts(a: &Anim) -> (&[Group], &[u8]) {
    match a {
        Anim::V20 { groups, buffer, .. } | Anim::V21 { groups, buffer, .. } => (&groups.elements, &buffer.elements),
        _ => {
            vp::fail("version");
            panic!()
        }
    }
}
fn bits(v: &TrackValues) -> Vec<u8> {
    let mut b = Vec::new();
    let mut p = |f: f32| b.extend_from_slice(&f.to_bits().to_le_bytes());
    match v {
        TrackValues::Transform(v) => v.iter().for_each(|t| [t.scale.x, t.scale.y, t.scale.z, t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w, t.translation.x, t.translation.y, t.translation.z].into_iter().for_each(&mut p)),
        TrackValues::UvTransform(v) => v.iter().for_each(|t| [t.scale_u, t.scale_v, t.rotation, t.translate_u, t.translate_v].into_iter().for_each(&mut p)),
        TrackValues::Float(v) => v.iter().for_each(|t| p(*t)),
        TrackValues::Vector4(v) => v.iter().for_each(|t| [t.x, t.y, t.z, t.w].into_iter().for_each(&mut p)),
        TrackValues::PatternIndex(v) => v.iter().for_each(|t| b.extend_from_slice(&t.to_le_bytes())),
        TrackValues::Boolean(v) => v.iter().for_each(|t| b.push(*t as u8)),
    }
    b
}

#[cfg(feature = "a01")]
pub mod a01 {
    use super::*;
    fn same(a: &AnimData, b: &AnimData) {
        vp::check(a.major_version == b.major_version && a.minor_version == b.minor_version, "version");
        vp::check(a.final_frame_index == b.final_frame_index, "final_frame");
        vp::check(a.groups.len() == b.groups.len(), "groups");
        for (x, y) in a.groups.iter().zip(&b.groups) {
            vp::check(x.group_type as u64 == y.group_type as u64 && x.nodes.len() == y.nodes.len(), "group");
            for (x, y) in x.nodes.iter().zip(&y.nodes) {
                vp::check(vp::same(x.name.as_bytes(), y.name.as_bytes()) && x.tracks.len() == y.tracks.len(), "node");
                for (x, y) in x.tracks.iter().zip(&y.tracks) {
                    vp::check(vp::same(x.name.as_bytes(), y.name.as_bytes()), "track.name");
                    vp::check(x.transform_flags == y.transform_flags, "track.flags");
                    vp::check(x.values.len() == y.values.len(), "track.frames");
                    vp::check(std::mem::discriminant(&x.values) == std::mem::discriminant(&y.values), "track.kind");
                    let (p, q) = (bits(&x.values), bits(&y.values));
                    if x.values.len() > 50 && !matches!(x.values, TrackValues::Boolean(_) | TrackValues::PatternIndex(_)) {
                        // compressed: fixed values of up to 100
                        let rotations = matches!(x.values, TrackValues::Transform(_));
                        let f = |b: &[u8]| f32::from_le_bytes([b[0], b[1], b[2], b[3]]);
                        vp::check(p.chunks(4).zip(q.chunks(4)).enumerate().all(|(i, (p, q))| (f(p) - f(q)).abs() < 0.01 || rotations && i % 10 == 6), "track.values");
                    } else {
                        vp::check(vp::same(&p, &q), "track.values");
                    }
                    if matches!(x.values, TrackValues::Transform(_)) && !x.values.is_empty() {
                        vp::check(x.compensate_scale == y.compensate_scale, "track.compensate_scale");
                    }
                }
            }
        }
    }
    fn end_to_end(d: &AnimData) {
        let b = saved(d);
        let r = loaded(&b);
        same(d, &r);
        // without the file in between
        match AnimData::try_from(&created(d)) {
            Ok(v) => same(d, &v),
            Err(_) => vp::fail("convert"),
        }
        vp::reach("same");
    }
    /// any data whose tracks have 0..3 frames
    #[no_mangle]
    pub extern "C" fn n_any() {
        vp::stub_format();
        let mut g = G::new();
        (g.dev, g.var, g.len, g.slen, g.maxlen) = (vp::param(1), vp::param(2) as u32, vp::param(3), vp::param(4), vp::param(5));
        (g.nan, g.fixed) = (true, g.maxlen > 10);
        let mut d: AnimData = g.make();
        (d.major_version, d.minor_version) = (2, vp::param(0) as u16);
        d.final_frame_index = if g.fixed { 100000.0 } else { 100.0 };
        end_to_end(&d);
    }
    /// one track of every kind with the given number of frames, all values arbitrary
    #[no_mangle]
    pub extern "C" fn n_frames() {
        vp::stub_format();
        let (kind, n, at, m) = (vp::param(0), vp::param(1) as usize, vp::param(2) as usize, vp::param(3) as usize);
        let mut t = track("t", some_values(kind, n, &mut vp::f32, at, m));
        t.compensate_scale = vp::bool();
        let one = values(kind, 1, &mut vp::f32);
        let mut d = anim(vec![track("u", one), t, track("w", TrackValues::Boolean(vec![vp::bool()]))]);
        end_to_end(&d);
    }
}

#[cfg(feature = "a05")]
pub mod a05 {
    use super::*;
    /// any version and final frame index, two tracks with up to 3 frames each
    #[no_mangle]
    pub extern "C" fn n_range() {
        vp::stub_format();
        let (n, m) = (vp::choice(4) as usize, vp::choice(4) as usize);
        let kind = vp::param(0);
        let mut d = anim(vec![track("t", values(kind, n, &mut vp::f32))]);
        // the other track lives in a second group, or there is no track at all
        if m > 0 {
            d.groups.push(GroupData { group_type: GroupType::Camera, nodes: vec![NodeData { name: "m".into(), tracks: vec![] }, NodeData { name: "n".into(), tracks: vec![track("u", values((kind + 1) % 6, m, &mut vp::f32))] }] });
        }
        let most = n.max(m) as i64;
        (d.major_version, d.minor_version, d.final_frame_index) = (vp::u16(), vp::u16(), vp::f32());
        let f = d.final_frame_index;
        // covers 0..=3 exactly in f32
        let covers = f >= 0.0 && (most <= 1 || f >= (most - 1) as f32);
        let supported = d.major_version == 2 && d.minor_version < 2;
        match Anim::try_from(&d) {
            Ok(a) => {
                vp::check(supported && covers, "accepted");
                let (v, g) = match &a {
                    Anim::V20 { final_frame_index, .. } => (0, *final_frame_index),
                    Anim::V21 { final_frame_index, .. } => (1, *final_frame_index),
                    _ => {
                        vp::fail("version");
                        (9, 0.0)
                    }
                };
                vp::check(v == d.minor_version && g.to_bits() == f.to_bits(), "kept");
                vp::reach("created");
            }
            Err(Error::UnsupportedVersion { major_version, minor_version }) => {
                vp::check(!supported && major_version == d.major_version && minor_version == d.minor_version, "unsupported");
                vp::reach("unsupported");
            }
            Err(Error::InvalidFinalFrameIndex { final_frame_index }) => {
                vp::check(!covers && final_frame_index.to_bits() == f.to_bits(), "bad_range");
                vp::reach("bad-range");
            }
            Err(_) => vp::fail("other_error"),
        }
    }
    /// long tracks: the frame count of the data decides, whatever way it is stored
    #[no_mangle]
    pub extern "C" fn n_long() {
        vp::stub_format();
        let (kind, n) = (vp::param(0), vp::param(1) as usize);
        let mut k = 0.0;
        let mut d = anim(vec![track("t", values(kind, 1, &mut || 0.5)), track("u", values(kind, n, &mut || {
            k += 0.25;
            k
        }))]);
        d.final_frame_index = vp::f32();
        let covers = d.final_frame_index >= (n - 1) as f32;
        match Anim::try_from(&d) {
            Ok(_) => vp::check(covers, "accepted"),
            Err(Error::InvalidFinalFrameIndex { .. }) => vp::check(!covers, "bad_range"),
            Err(_) => vp::fail("other_error"),
        }
        // a constant track counts with all its frames
        d.groups[0].nodes[0].tracks[1].values = values(kind, n, &mut || 0.5);
        match Anim::try_from(&d) {
            Ok(_) => vp::check(covers, "accepted"),
            Err(Error::InvalidFinalFrameIndex { .. }) => vp::check(!covers, "bad_range"),
            Err(_) => vp::fail("other_error"),
        }
        vp::reach("long");
    }
}

#[cfg(feature = "a04")]
pub mod a04 {
    use super::*;
    use ssbh_lib::formats::anim::{Property, TrackTypeV1, TrackV1};
    const TYPES: [TrackTypeV2; 6] = [TrackTypeV2::Transform, TrackTypeV2::UvTransform, TrackTypeV2::Float, TrackTypeV2::PatternIndex, TrackTypeV2::Boolean, TrackTypeV2::Vector4];
    const SIZE: [usize; 6] = [44, 20, 4, 4, 1, 16];
    const KINDS: [CompressionType; 4] = [CompressionType::Direct, CompressionType::ConstTransform, CompressionType::Compressed, CompressionType::Constant];
    const LIMIT: usize = 1 << 20;
    fn file(ty: u64, c: u64, frame_count: u32, data_offset: u32, data_size: u64, buffer: Vec<u8>) -> Anim {
        let t = TrackV2 { name: "t".into(), flags: TrackFlags { track_type: TYPES[ty as usize], compression_type: KINDS[c as usize] }, frame_count, transform_flags: TransformFlags::default().into(), data_offset, data_size };
        Anim::V20 { final_frame_index: 0.0, unk1: 1, unk2: 3, name: "".into(), groups: vec![Group { group_type: GroupType::Material, nodes: vec![Node { name: "n".into(), tracks: vec![t].into() }].into() }].into(), buffer: buffer.into() }
    }
    fn one(d: &AnimData) -> &TrackValues {
        &d.groups[0].nodes[0].tracks[0].values
    }
    /// bytes of the values stored uncompressed
    fn stored(ty: u64, b: &[u8]) -> Vec<u8> {
        let mut r = Vec::new();
        for c in b.chunks(SIZE[ty as usize]) {
            match ty {
                0 => r.extend_from_slice(&c[..40]),
                4 => r.push((c[0] != 0) as u8),
                _ => r.extend_from_slice(c),
            }
        }
        r
    }
    /// uncompressed values: any range in the buffer, any frame count
    #[no_mangle]
    pub extern "C" fn n_plain() {
        vp::stub_format();
        vp::alloc_limit(LIMIT);
        let (ty, c, len) = (vp::param(0), vp::param(1), vp::param(2) as usize);
        let b = vp::bytes(len);
        let (count, at, size) = (vp::u32(), if vp::param(3) == 0 { 0 } else { vp::u32() }, vp::u64());
        let inside = at as u64 <= len as u64 && size <= len as u64 - at as u64;
        let fits = inside && (count as u64) <= size / SIZE[ty as usize] as u64;
        match AnimData::try_from(&file(ty, c, count, at, size, b.clone())) {
            Ok(d) => {
                vp::check(fits, "range");
                let v = one(&d);
                vp::check(v.len() == count as usize, "count");
                let (at, n) = (vp::conc(at as u64) as usize, v.len());
                let n = vp::conc(n as u64) as usize;
                vp::check(vp::same(&bits(v), &stored(ty, &b[at..at + n * SIZE[ty as usize]])), "values");
                vp::reach("value");
            }
            Err(_) => {
                vp::check(!fits, "refused");
                vp::reach("error");
            }
        }
    }
    fn compressed(kind: u64) -> (TrackV2, Vec<u8>) {
        let n = [7, 8, 11, 11, 36, 9][kind as usize];
        let mut k = 0.0;
        let d = anim(vec![track("t", some_values(kind, n, &mut || {
            k += 0.125;
            k
        }, 0, 0))]);
        let a = created(&d);
        let (g, b) = parts(&a);
        let t = g[0].nodes.elements[0].tracks.elements[0].clone();
        vp::check(t.flags.compression_type == CompressionType::Compressed, "compressed");
        (t, b.to_vec())
    }
    fn check_len(r: Result<AnimData, Box<dyn std::error::Error>>, count: u32) {
        match r {
            Ok(d) => {
                vp::check(one(&d).len() as u64 <= count as u64, "count");
                vp::reach("value");
            }
            Err(_) => vp::reach("error"),
        }
    }
    /// a compressed track with a run of arbitrary bytes at every position, and any of several frame counts
    #[no_mangle]
    pub extern "C" fn n_win() {
        vp::stub_format();
        let kind = vp::param(0);
        let (t, mut b) = compressed(kind);
        vp::alloc_limit(LIMIT);
        let (w, step, part, parts) = (vp::param(1) as usize, vp::param(2), vp::param(3), vp::param(4));
        let n = (b.len() as u64 + step - 1) / step;
        let (lo, hi) = (n * part / parts, n * (part + 1) / parts);
        let at = ((lo + vp::choice(hi - lo)) * step) as usize;
        let end = (at + w).min(b.len());
        vp::fill(&mut b[at..end]);
        check_len(AnimData::try_from(&file(kind, 2, t.frame_count, 0, t.data_size, b)), t.frame_count);
    }
    /// a compressed track cut anywhere, with any frame count
    #[no_mangle]
    pub extern "C" fn n_cut() {
        vp::stub_format();
        let kind = vp::param(0);
        let (t, b) = compressed(kind);
        vp::alloc_limit(LIMIT);
        let size = vp::choice(b.len() as u64 + 1);
        let count = [0, 1, t.frame_count, t.frame_count + 1, t.frame_count + 9, u32::MAX][vp::choice(6) as usize];
        let r = AnimData::try_from(&file(kind, 2, count, 0, size, b[..size as usize].to_vec()));
        if size == t.data_size && count == t.frame_count {
            vp::check(r.is_ok(), "refused");
        }
        // a whole byte beyond what is stored must be missing
        if count > t.frame_count + 8 || count > 0 && size < 16 {
            vp::check(r.is_err(), "accepted");
        }
        check_len(r, count);
    }
    /// bits per frame other than what the components need are an error
    #[no_mangle]
    pub extern "C" fn n_bits() {
        vp::stub_format();
        let kind = vp::param(0);
        let (t, mut b) = compressed(kind);
        vp::alloc_limit(LIMIT);
        let was = [b[6], b[7]];
        let now: [u8; 2] = vp::arr();
        b[6..8].copy_from_slice(&now);
        match AnimData::try_from(&file(kind, 2, t.frame_count, 0, t.data_size, b)) {
            Ok(_) => {
                vp::check(now == was, "accepted");
                vp::reach("value");
            }
            Err(_) => {
                vp::check(now != was, "refused");
                vp::reach("error");
            }
        }
    }
    /// version 1.2: tracks whose properties name any buffer with any contents
    #[no_mangle]
    pub extern "C" fn n_v12() {
        vp::stub_format();
        vp::alloc_limit(LIMIT);
        let len = vp::param(0) as usize;
        let b = vp::bytes(len);
        let ty = [TrackTypeV1::Transform, TrackTypeV1::UvTransform, TrackTypeV1::Visibility][vp::choice(3) as usize];
        let p = |i: u64| Property { name: "p".into(), buffer_index: i };
        let tracks = vec![
            TrackV1 { name: "a".into(), track_type: ty, properties: vec![p(0)].into() },
            TrackV1 { name: "b".into(), track_type: TrackTypeV1::Visibility, properties: vec![p(1), p(vp::u64())].into() },
        ];
        let a = Anim::V12 { name: "".into(), unk1: 0.0, final_frame_index: 1.0, unk2: 0.0, unk3: 0.0, tracks: tracks.into(), buffers: vec![b.into(), vec![0x13, 0x10, 0, 0, 1, 0].into()].into() };
        match AnimData::try_from(&a) {
            Ok(d) => {
                vp::check(d.groups.iter().map(|g| g.nodes.len()).sum::<usize>() == 2, "tracks");
                vp::reach("value");
            }
            Err(_) => vp::reach("error"),
        }
    }
}

#[cfg(feature = "a02")]
pub mod a02 {
    use super::*;
    fn flat(v: &TrackValues) -> Vec<f32> {
        let b = bits(v);
        b.chunks(4).map(|c| f32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
    }
    fn first(d: &AnimData) -> &TrackValues {
        &d.groups[0].nodes[0].tracks[0].values
    }
    fn convert(t: TrackValues) -> TrackValues {
        let d = anim(vec![track("t", t)]);
        let a = created(&d);
        match AnimData::try_from(&a) {
            Ok(r) => first(&r).clone(),
            Err(_) => {
                vp::fail("convert");
                panic!()
            }
        }
    }
    /// (lo, hi) of a component over the track
    const RANGES: [(f32, f32); 16] = [
        (0.0, 1.0),
        (-1.0, 1.0),
        (-3.5, 12.25),
        (1000.0, 1001.0),
        (-1e-3, 2e-3),
        (-1e30, 1e30),
        (0.0, 360.0),
        (-3.1415927, 3.1415927),
        (1.0, 1.0000019),
        (16777216.0, 16777300.0),
        (1e-38, 2e-38),
        (-0.5, 0.5),
        (3.0, 3.0000002),
        (-0.25, -0.125),
        (0.125, 100000.0),
        (-65504.0, 3.0),
    ];
    fn range(i: u64) -> (f32, f32) {
        RANGES[(i % 16) as usize]
    }
    /// any value of the range
    fn within((lo, hi): (f32, f32)) -> f32 {
        let v = vp::f32();
        vp::assume(v.to_bits() != 0x8000_0000);
        vp::assume(lo <= v);
        vp::assume(v <= hi);
        v
    }
    /// frames whose values span exactly the range wherever frame `at` lies in it
    fn span(n: usize, at: usize, (lo, hi): (f32, f32)) -> Vec<f32> {
        let k = n - 1; // the other frames
        let mut o: Vec<f32> = (0..k).map(|i| if i + 1 == k { hi } else { lo + (hi - lo) * (i as f32 / (k - 1) as f32) }).collect();
        let v = o[0];
        o.insert(at, v);
        o
    }
    /// within a quantization step of the original, up to the rounding of single precision
    fn near(d: f32, v: f32, (lo, hi): (f32, f32)) {
        vp::check(d >= lo && d <= hi, "range");
        let step = (hi as f64 - lo as f64) / 16777215.0;
        let err = d as f64 - v as f64;
        let m = lo.abs().max(hi.abs()) as f64;
        let tol = step * 6.0 + m * 2.4e-7 + 1e-44;
        vp::check(err <= tol && err >= -tol, "error");
    }
    fn equal(d: f32, v: f32) {
        vp::check(d.to_bits() == v.to_bits() || (d == 0.0 && v == 0.0), "constant");
    }
    /// every frame but `at` decodes as it does when frame `at` holds the low end
    fn others(r: &[f32], base: &[f32], comps: usize, at: usize) {
        vp::check(r.len() == base.len(), "frames");
        for i in 0..base.len() {
            if i / comps != at {
                vp::check(r[i].to_bits() == base[i].to_bits(), "others");
            }
        }
    }
    /// one value of a track is arbitrary within the range of the others
    #[no_mangle]
    pub extern "C" fn q_float() {
        vp::stub_format();
        let (rg, n, at) = (range(vp::param(0)), vp::param(1) as usize, vp::param(2) as usize);
        let mut f = span(n, at, rg);
        let base = flat(&convert(TrackValues::Float(f.clone())));
        let v = within(rg);
        f[at] = v;
        let r = flat(&convert(TrackValues::Float(f.clone())));
        others(&r, &base, 1, at);
        near(r[at], v, rg);
        for (d, v) in base.iter().zip(span(n, at, rg)) {
            near(*d, v, rg);
        }
        vp::reach("decoded");
    }
    /// all values are arbitrary but two that span the range
    #[no_mangle]
    pub extern "C" fn q_floats() {
        vp::stub_format();
        let (rg, n) = (range(vp::param(0)), vp::param(1) as usize);
        let f: Vec<f32> = (0..n).map(|i| if i == 1 { rg.1 } else if i == 0 { rg.0 } else { within(rg) }).collect();
        let r = flat(&convert(TrackValues::Float(f.clone())));
        vp::check(r.len() == n, "frames");
        for i in 0..n {
            near(r[i], f[i], rg);
        }
        vp::reach("decoded");
    }
    /// the components of one frame are arbitrary, each in its own range; `fixed` is constant
    #[no_mangle]
    pub extern "C" fn q_vec4() {
        vp::stub_format();
        let (rg, n, at, fixed) = (vp::param(0), vp::param(1) as usize, vp::param(2) as usize, vp::param(3) as usize);
        let k = 0.3f32;
        let spans: Vec<Vec<f32>> = (0..4).map(|c| if c == fixed { vec![k; n] } else { span(n, at, range(rg + c as u64)) }).collect();
        let mut t: Vec<Vector4> = (0..n).map(|i| Vector4::new(spans[0][i], spans[1][i], spans[2][i], spans[3][i])).collect();
        let base = flat(&convert(TrackValues::Vector4(t.clone())));
        let v: Vec<f32> = (0..4).map(|c| if c == fixed { k } else { within(range(rg + c as u64)) }).collect();
        t[at] = Vector4::new(v[0], v[1], v[2], v[3]);
        let r = flat(&convert(TrackValues::Vector4(t)));
        others(&r, &base, 4, at);
        for c in 0..4 {
            if c == fixed {
                (0..n).for_each(|i| equal(r[4 * i + c], k));
            } else {
                near(r[4 * at + c], v[c], range(rg + c as u64));
            }
        }
        vp::reach("decoded");
    }
    /// `uniform`: 0 the scales differ, 1 they agree on every frame, 2 on every frame but the arbitrary one
    #[no_mangle]
    pub extern "C" fn q_uv() {
        vp::stub_format();
        let (rg, n, at, uniform, fixed) = (vp::param(0), vp::param(1) as usize, vp::param(2) as usize, vp::param(3), vp::param(4) as usize);
        let k = -0.7f32;
        let rr = |c: usize| range(rg + if uniform != 0 && c == 1 { 0 } else { c as u64 });
        let spans: Vec<Vec<f32>> = (0..5).map(|c| if c == fixed { vec![k; n] } else { span(n, at, rr(c)) }).collect();
        let make = |v: &[f32]| UvTransform { scale_u: v[0], scale_v: v[1], rotation: v[2], translate_u: v[3], translate_v: v[4] };
        let mut t: Vec<UvTransform> = (0..n).map(|i| make(&[spans[0][i], spans[1][i], spans[2][i], spans[3][i], spans[4][i]])).collect();
        let base = flat(&convert(TrackValues::UvTransform(t.clone())));
        let mut v: Vec<f32> = (0..5).map(|c| if c == fixed { k } else { within(rr(c)) }).collect();
        if uniform == 1 {
            v[1] = v[0];
        }
        t[at] = make(&v);
        let r = flat(&convert(TrackValues::UvTransform(t)));
        if uniform != 2 {
            others(&r, &base, 5, at);
        }
        for c in 0..5 {
            if c == fixed {
                (0..n).for_each(|i| equal(r[5 * i + c], k));
            } else {
                near(r[5 * at + c], v[c], rr(c));
                if uniform == 2 {
                    (0..n).for_each(|i| if i != at { near(r[5 * i + c], spans[c][i], rr(c)) });
                }
            }
        }
        vp::reach("decoded");
    }
    /// `part`: which of scale (0), rotation (1), translation (2) varies; the others are constant.
    /// `uniform` as above, for the scale.
    #[no_mangle]
    pub extern "C" fn q_transform() {
        vp::stub_format();
        let (rg, n, at, part, uniform) = (vp::param(0), vp::param(1) as usize, vp::param(2) as usize, vp::param(3), vp::param(4));
        // a rotation's components stay below a half so that the length never exceeds one
        let rr = |c: usize| if part == 1 { [(-0.5, 0.5), (0.0, 0.25), (-0.4, -0.1)][c] } else { range(rg + if part == 0 && uniform != 0 { 0 } else { c as u64 }) };
        let spans: Vec<Vec<f32>> = (0..3).map(|c| span(n, at, rr(c))).collect();
        let make = |v: &[f32], negative: bool| {
            let mut t = Transform { scale: Vector3::new(2.0, 3.0, 0.1), rotation: Vector4::new(0.1, -0.2, 0.3, 0.9273619), translation: Vector3::new(-1.5, 0.7, 8.1) };
            match part {
                0 => t.scale = Vector3::new(v[0], v[1], v[2]),
                1 => {
                    let w = (1.0 - v[0] * v[0] - v[1] * v[1] - v[2] * v[2]).sqrt();
                    t.rotation = Vector4::new(v[0], v[1], v[2], w)
                }
                _ => t.translation = Vector3::new(v[0], v[1], v[2]),
            }
            if negative {
                t.rotation.w = -t.rotation.w;
            }
            t
        };
        let mut t: Vec<Transform> = (0..n).map(|i| make(&[spans[0][i], spans[1][i], spans[2][i]], i % 3 == 1)).collect();
        let constant = flat(&TrackValues::Transform(t.clone()));
        let base = flat(&convert(TrackValues::Transform(t.clone())));
        let mut v: Vec<f32> = (0..3).map(|c| within(rr(c))).collect();
        if part == 0 && uniform == 1 {
            (v[1], v[2]) = (v[0], v[0]);
        }
        let negative = vp::bool();
        t[at] = make(&v, negative);
        if part == 1 {
            // only the sign of w is stored
            let w = vp::f32();
            vp::assume(if negative { w <= 0.0 && w.to_bits() >> 31 == 1 } else { w >= 0.0 && w.to_bits() >> 31 == 0 });
            vp::assume(w >= -1.0);
            vp::assume(w <= 1.0);
            t[at].rotation.w = w;
        }
        let r = flat(&convert(TrackValues::Transform(t)));
        if !(part == 0 && uniform == 2) {
            others(&r, &base, 10, at);
        }
        let first = [0, 3, 7][part as usize];
        for i in 0..n {
            for c in 0..10 {
                let d = r[10 * i + c];
                if c >= first && c < first + 3 {
                    let e = c - first;
                    near(d, if i == at { v[e] } else { spans[e][i] }, rr(e));
                } else if c == 6 {
                    let neg = if i == at { negative } else { i % 3 == 1 };
                    vp::check(if neg { d <= 0.0 } else { d >= 0.0 }, "w_sign");
                    vp::check(d >= -1.0 && d <= 1.0, "w_range");
                    if i != at || part != 1 {
                        let w = constant[10 * i + 6].abs() * if neg { -1.0 } else { 1.0 };
                        let e = d - w;
                        vp::check(e < 2e-6 && e > -2e-6, "w");
                    }
                } else {
                    equal(d, constant[10 * i + c]);
                }
            }
        }
        vp::reach("decoded");
    }
}

#[cfg(feature = "a03")]
pub mod a03 {
    use super::*;
    /// little-endian bytes of the values stored uncompressed
    fn plain(v: &TrackValues, compensate_scale: bool) -> Vec<u8> {
        let b = bits(v);
        if let TrackValues::Transform(_) = v {
            let mut r = Vec::new();
            for c in b.chunks(40) {
                r.extend_from_slice(c);
                r.extend_from_slice(&(compensate_scale as u32).to_le_bytes());
            }
            return r;
        }
        b
    }
    fn kind(v: &TrackValues) -> u64 {
        match v {
            TrackValues::Transform(_) => 0,
            TrackValues::UvTransform(_) => 1,
            TrackValues::Float(_) => 2,
            TrackValues::PatternIndex(_) => 3,
            TrackValues::Boolean(_) => 4,
            TrackValues::Vector4(_) => 5,
        }
    }
    const TYPES: [TrackTypeV2; 6] = [TrackTypeV2::Transform, TrackTypeV2::UvTransform, TrackTypeV2::Float, TrackTypeV2::PatternIndex, TrackTypeV2::Boolean, TrackTypeV2::Vector4];
    struct R<'a>(&'a [u8]);
    impl R<'_> {
        fn num(&self, at: usize, n: usize) -> u64 {
            vp::check(at + n <= self.0.len(), "inside");
            let mut x = 0u64;
            for i in (0..n).rev() {
                x = x << 8 | self.0[at + i] as u64;
            }
            x
        }
    }
    /// header and sections of a compressed track; None for the component ranges that are not floats
    fn check_compressed(b: &[u8], d: &TrackData) {
        let (k, n) = (kind(&d.values), d.values.len());
        let r = R(b);
        vp::check(r.num(0, 2) == 4, "header.unk");
        let data = bits(&d.values);
        let f: Vec<f32> = data.chunks(4).map(|c| if c.len() == 4 { f32::from_le_bytes([c[0], c[1], c[2], c[3]]) } else { 0.0 }).collect();
        // component order in the compression section, as offsets within one value
        let (comps, size): (&[usize], usize) = match k {
            0 => (&[0, 1, 2, 3, 4, 5, 7, 8, 9], 10),
            1 => (&[0, 1, 2, 3, 4], 5),
            2 => (&[0], 1),
            5 => (&[0, 1, 2, 3], 4),
            _ => (&[], 0),
        };
        let uniform = match k {
            0 => (0..n).all(|i| f[i * 10] == f[i * 10 + 1] && f[i * 10 + 1] == f[i * 10 + 2]),
            1 => (0..n).all(|i| f[i * 5] == f[i * 5 + 1]),
            _ => false,
        };
        vp::check(r.num(2, 2) == if k < 2 { 13 | (uniform as u64) << 1 } else { 0 }, "header.flags");
        let (default, per, at, count) = (r.num(4, 2) as usize, r.num(6, 2), r.num(8, 4) as usize, r.num(12, 4));
        vp::check(count == n as u64, "header.frames");
        let mut expected = 0;
        let mut used = 16;
        let mut mins = Vec::new();
        for (i, c) in comps.iter().enumerate() {
            let lo = (0..n).map(|j| f[j * size + c]).fold(f32::INFINITY, f32::min);
            let hi = (0..n).map(|j| f[j * size + c]).fold(f32::NEG_INFINITY, f32::max);
            vp::check(f32::from_bits(r.num(16 + 16 * i, 4) as u32) == lo, "range.min");
            vp::check(f32::from_bits(r.num(20 + 16 * i, 4) as u32) == hi, "range.max");
            let bits = r.num(24 + 16 * i, 8);
            vp::check(bits == if lo == hi { 0 } else { 24 }, "range.bits");
            mins.push(lo);
            if !(uniform && (k == 0 && (i == 1 || i == 2) || k == 1 && i == 1)) {
                expected += bits;
            }
            used += 16;
        }
        match k {
            0 => expected += 1,
            3 => {
                let v: Vec<u32> = data.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
                let (lo, hi) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
                vp::check(r.num(16, 4) as u32 == lo && r.num(20, 4) as u32 == hi, "range.index");
                expected = r.num(24, 8);
                vp::check(expected <= 32 && (hi - lo) as u64 >> expected == 0, "range.bits");
                used += 16;
            }
            4 => {
                vp::check(r.num(16, 8) == 0 && r.num(24, 8) == 0, "range.bool");
                expected = 1;
                used += 16;
            }
            _ => {}
        }
        vp::check(per == expected, "header.bits");
        // default value and compressed bits follow, in this order and without overlap
        let value = [44, 20, 4, 4, 1, 16][k as usize];
        vp::check(default >= used && default + value <= at, "default.place");
        for (i, m) in mins.iter().enumerate() {
            if k == 0 {
                vp::check(f32::from_bits(r.num(default + 4 * comps[i], 4) as u32) == *m, "default.value");
            } else {
                vp::check(f32::from_bits(r.num(default + 4 * i, 4) as u32) == *m, "default.value");
            }
        }
        if k == 0 {
            vp::check(r.num(default + 40, 4) == d.compensate_scale as u64, "default.compensate_scale");
        }
        let bytes = (per * n as u64 + 7) / 8;
        vp::check(at as u64 + bytes == b.len() as u64, "data.length");
        // the bits of boolean and integer values, and of each rotation's sign
        let bit = |i: u64| b[at + (i / 8) as usize] >> (i % 8) & 1;
        for j in 0..n as u64 {
            match k {
                4 => vp::check(bit(j) == data[j as usize], "data.bool"),
                3 => {
                    let mut x = 0u64;
                    for q in (0..per).rev() {
                        x = x << 1 | bit(j * per + q) as u64;
                    }
                    let c = &data[4 * j as usize..];
                    vp::check(x + r.num(16, 4) == u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as u64, "data.index");
                }
                0 => {
                    let w = f[j as usize * 10 + 6].to_bits() >> 31;
                    vp::check(bit((j + 1) * per - 1) as u32 == w, "data.sign");
                }
                _ => {}
            }
        }
        // every component is stored with its bits in declaration order, nearest to its place in the range
        let mut skip = 0;
        for (i, c) in comps.iter().enumerate() {
            let bits = r.num(24 + 16 * i, 8);
            if uniform && (k == 0 && (i == 1 || i == 2) || k == 1 && i == 1) {
                continue;
            }
            let (lo, hi) = (f32::from_bits(r.num(16 + 16 * i, 4) as u32) as f64, f32::from_bits(r.num(20 + 16 * i, 4) as u32) as f64);
            for j in 0..n as u64 {
                if bits > 0 {
                    let mut x = 0u64;
                    for q in (0..bits).rev() {
                        x = x << 1 | bit(j * per + skip + q) as u64;
                    }
                    let want = (f[j as usize * size + c] as f64 - lo) / (hi - lo) * 16777215.0;
                    vp::check((x as f64 - want).abs() <= 3.0, "data.code");
                }
            }
            skip += bits;
        }
    }
    fn check_anim(d: &AnimData) {
        let a = created(d);
        let (groups, b) = parts(&a);
        vp::check(groups.len() == d.groups.len(), "groups");
        let mut at = 0usize;
        for (g, dg) in groups.iter().zip(&d.groups) {
            vp::check(g.nodes.elements.len() == dg.nodes.len() && g.group_type as u64 == dg.group_type as u64, "group");
            for (n, dn) in g.nodes.elements.iter().zip(&dg.nodes) {
                vp::check(n.tracks.elements.len() == dn.tracks.len(), "node");
                for (t, dt) in n.tracks.elements.iter().zip(&dn.tracks) {
                    vp::check(t.data_offset as usize == at && at as u64 + t.data_size <= b.len() as u64, "place");
                    vp::check(t.frame_count as usize == dt.values.len(), "frames");
                    vp::check(t.flags.track_type == TYPES[kind(&dt.values) as usize], "type");
                    let f = t.transform_flags;
                    vp::check(f.override_translation() == dt.transform_flags.override_translation && f.override_rotation() == dt.transform_flags.override_rotation && f.override_scale() == dt.transform_flags.override_scale && f.override_compensate_scale() == dt.transform_flags.override_compensate_scale, "flags");
                    let end = at + t.data_size as usize;
                    let part = &b[at..end];
                    if t.flags.compression_type == CompressionType::Compressed {
                        check_compressed(part, dt);
                        vp::reach("compressed");
                    } else {
                        vp::check(vp::same(part, &plain(&dt.values, dt.compensate_scale)), "plain");
                        vp::reach("plain");
                    }
                    let single = dt.values.len() <= 1;
                    let c = t.flags.compression_type;
                    vp::check(single == (c == CompressionType::Constant || c == CompressionType::ConstTransform), "constant");
                    at = end;
                }
            }
        }
        vp::check(at == b.len(), "gap");
    }
    /// any data whose tracks have 0..3 frames
    #[no_mangle]
    pub extern "C" fn b_any() {
        vp::stub_format();
        let mut g = G::new();
        (g.dev, g.var, g.len, g.slen, g.maxlen) = (vp::param(1), vp::param(2) as u32, vp::param(3), vp::param(4), vp::param(5));
        (g.nan, g.fixed) = (true, g.maxlen > 10);
        let mut d: AnimData = g.make();
        (d.major_version, d.minor_version) = (2, vp::param(0) as u16);
        d.final_frame_index = if g.fixed { 100000.0 } else { 100.0 };
        check_anim(&d);
    }
    /// a long track between two short ones; components vary, except those in the mask, which are
    /// arbitrary but constant; rotation signs and flags are arbitrary
    #[no_mangle]
    pub extern "C" fn b_long() {
        vp::stub_format();
        let (k, n, mask, at, m) = (vp::param(0), vp::param(1) as usize, vp::param(2), vp::param(3) as usize, vp::param(4) as usize);
        let mut x = 0u32;
        let mut t = track("t", some_values(k, n, &mut || {
            x += 1;
            (x.wrapping_mul(2654435761) >> 12) as f32 / 262144.0 - 1.5
        }, at, m));
        let mut y = 0.5f32;
        let mut constant = || {
            if mask & 32 == 0 {
                return vp::real();
            }
            y += 0.375;
            y
        };
        match &mut t.values {
            TrackValues::Transform(v) => {
                let c = transform(&mut constant);
                for (i, t) in v.iter_mut().enumerate() {
                    if mask & 1 != 0 {
                        t.scale = c.scale;
                    }
                    if mask & 2 != 0 {
                        t.rotation = c.rotation;
                    }
                    if mask & 4 != 0 {
                        t.translation = c.translation;
                    }
                    if mask & 8 != 0 {
                        t.scale.x = c.scale.x;
                    }
                    if mask & 16 != 0 {
                        (t.scale.y, t.scale.z) = (t.scale.x, t.scale.x);
                    }
                    if i >= at && i < at + m {
                        t.rotation.w = vp::real();
                    }
                }
            }
            TrackValues::UvTransform(v) => {
                let c = uv(&mut constant);
                for t in v.iter_mut() {
                    if mask & 1 != 0 {
                        t.scale_u = c.scale_u;
                    }
                    if mask & 2 != 0 {
                        t.scale_v = t.scale_u;
                    }
                    if mask & 4 != 0 {
                        t.rotation = c.rotation;
                    }
                    if mask & 8 != 0 {
                        t.translate_v = c.translate_v;
                    }
                }
            }
            TrackValues::Float(v) if mask & 1 != 0 => {
                let c = constant();
                v.fill(c);
            }
            TrackValues::Vector4(v) => {
                let c = v4(&mut constant);
                for t in v.iter_mut() {
                    if mask & 1 != 0 {
                        t.y = c.y;
                    }
                    if mask & 2 != 0 {
                        t.w = c.w;
                    }
                }
            }
            _ => {}
        }
        t.compensate_scale = vp::bool();
        t.transform_flags = TransformFlags { override_translation: vp::bool(), override_rotation: vp::bool(), override_scale: vp::bool(), override_compensate_scale: vp::bool() };
        let one = |k| values(k, 1, &mut vp::real);
        let mut d = anim(vec![track("a", one(4)), t, track("b", one(0))]);
        d.groups.push(GroupData { group_type: GroupType::Camera, nodes: vec![NodeData { name: "c".into(), tracks: vec![track("d", one(2))] }] });
        check_anim(&d);
    }
}
