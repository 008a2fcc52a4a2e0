//! V01: vector and matrix types and vertex data helpers. M06: bounding volumes.
use crate::vp;
use ssbh_data::mesh_data::{calculate_smooth_normals, calculate_tangents_vec4, transform_points, transform_vectors, AttributeData, MeshData, MeshObjectData, VectorData};
use ssbh_lib::formats::mesh::*;
use ssbh_lib::{Color4f, Matrix3x3, Matrix4x4, Vector3, Vector4};

fn eq(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(0, |d, (x, y)| d | (x.to_bits() ^ y.to_bits())) == 0
}
fn any<const N: usize>() -> [f32; N] {
    let mut v = [0.0; N];
    v.iter_mut().for_each(|x| *x = vp::f32());
    v
}
fn small() -> f32 {
    let x = vp::real();
    vp::assume((x >= -1024.0) & (x <= 1024.0));
    x
}
/// one of the two, and not above (below) either
fn extreme(r: f32, a: f32, b: f32, min: bool) -> bool {
    let one = (r.to_bits() == a.to_bits()) | (r.to_bits() == b.to_bits());
    let side = if min { (r <= a) & (r <= b) } else { (r >= a) & (r >= b) };
    // a NaN loses
    let nan = ((a != a) & (r.to_bits() == b.to_bits())) | ((b != b) & (r.to_bits() == a.to_bits()));
    (one & side) | nan
}
#[no_mangle]
pub extern "C" fn v_types() {
    let a = any::<3>();
    let b = any::<3>();
    let (v, u) = (Vector3::new(a[0], a[1], a[2]), Vector3::from(b));
    vp::check(eq(&[v.x, v.y, v.z], &a) && eq(&[u.x, u.y, u.z], &b), "vector3.new");
    vp::check(eq(&v.to_array(), &a) && eq(&<[f32; 3]>::from(v), &a), "vector3.array");
    let t: (f32, f32, f32) = v.into();
    let w = Vector3::from((a[0], a[1], a[2]));
    vp::check(eq(&[t.0, t.1, t.2], &a) && eq(&[w.x, w.y, w.z], &a), "vector3.tuple");
    let w = vp::f32();
    let e = v.extend(w);
    vp::check(eq(&[e.x, e.y, e.z, e.w], &[a[0], a[1], a[2], w]), "vector3.extend");
    let (lo, hi) = (v.min(u), v.max(u));
    vp::check([(lo.x, 0), (lo.y, 1), (lo.z, 2)].iter().fold(true, |k, (x, i)| k & extreme(*x, a[*i], b[*i], true)), "vector3.min");
    vp::check([(hi.x, 0), (hi.y, 1), (hi.z, 2)].iter().fold(true, |k, (x, i)| k & extreme(*x, a[*i], b[*i], false)), "vector3.max");
    vp::check(eq(&Vector3::ZERO.to_array(), &[0.0; 3]) && eq(&Vector4::ZERO.to_array(), &[0.0; 4]), "zero");

    let a = any::<4>();
    let b = any::<4>();
    let (v, u) = (Vector4::new(a[0], a[1], a[2], a[3]), Vector4::from(b));
    vp::check(eq(&[v.x, v.y, v.z, v.w], &a) && eq(&[u.x, u.y, u.z, u.w], &b), "vector4.new");
    vp::check(eq(&v.to_array(), &a) && eq(&<[f32; 4]>::from(v), &a) && eq(&v.xyz().to_array(), &a[..3]), "vector4.array");
    let w = Vector4::from((a[0], a[1], a[2], a[3]));
    vp::check(eq(&[w.x, w.y, w.z, w.w], &a), "vector4.tuple");
    let (lo, hi) = (v.min(u), v.max(u));
    vp::check([(lo.x, 0), (lo.y, 1), (lo.z, 2), (lo.w, 3)].iter().fold(true, |k, (x, i)| k & extreme(*x, a[*i], b[*i], true)), "vector4.min");
    vp::check([(hi.x, 0), (hi.y, 1), (hi.z, 2), (hi.w, 3)].iter().fold(true, |k, (x, i)| k & extreme(*x, a[*i], b[*i], false)), "vector4.max");
    vp::reach("same");
}
#[no_mangle]
pub extern "C" fn v_matrices() {
    let c = [any::<3>(), any::<3>(), any::<3>()];
    let m = Matrix3x3::from_cols_array(&c);
    vp::check(eq(&m.col1.to_array(), &c[0]) && eq(&m.col2.to_array(), &c[1]) && eq(&m.col3.to_array(), &c[2]), "matrix3.columns");
    vp::check(eq(&m.to_cols_array().concat(), &c.concat()), "matrix3.back");
    vp::check(eq(&Matrix3x3::identity().to_cols_array().concat(), &[1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0]), "matrix3.identity");
    let c = [any::<4>(), any::<4>(), any::<4>(), any::<4>()];
    let m = Matrix4x4::from_cols_array(&c);
    vp::check(eq(&m.col1.to_array(), &c[0]) && eq(&m.col2.to_array(), &c[1]) && eq(&m.col3.to_array(), &c[2]) && eq(&m.col4.to_array(), &c[3]), "matrix4.columns");
    vp::check(eq(&m.to_cols_array().concat(), &c.concat()), "matrix4.back");
    let mut i = [0.0; 16];
    (0..4).for_each(|k| i[k * 5] = 1.0);
    vp::check(eq(&Matrix4x4::identity().to_cols_array().concat(), &i), "matrix4.identity");
    vp::reach("same");
}
fn data(comps: u64, p: &[[f32; 4]]) -> VectorData {
    match comps {
        2 => VectorData::Vector2(p.iter().map(|v| [v[0], v[1]]).collect()),
        3 => VectorData::Vector3(p.iter().map(|v| [v[0], v[1], v[2]]).collect()),
        _ => VectorData::Vector4(p.to_vec()),
    }
}
fn flat(v: &VectorData) -> (u64, Vec<f32>) {
    match v {
        VectorData::Vector2(v) => (2, v.concat()),
        VectorData::Vector3(v) => (3, v.concat()),
        VectorData::Vector4(v) => (4, v.concat()),
    }
}
/// [components, vectors]
#[no_mangle]
pub extern "C" fn v_data() {
    let (c, n) = (vp::param(0), vp::param(1) as usize);
    let p: Vec<[f32; 4]> = (0..n).map(|_| any()).collect();
    let w = vp::f32();
    let d = data(c, &p);
    vp::check(d.len() == n && d.is_empty() == (n == 0), "len");
    let r = d.to_vec4_with_w(w);
    vp::check(r.len() == n, "count");
    for (r, p) in r.iter().zip(&p) {
        vp::check(eq(r, &[p[0], p[1], if c == 2 { 0.0 } else { p[2] }, w]), "padded");
    }
    vp::reach("same");
}
/// Linear in the vectors for a given matrix, and in the matrix for given vectors.
/// [components, vectors, points or vectors, what is symbolic, which special matrix if any]
#[no_mangle]
pub extern "C" fn v_transform() {
    let (c, n, points, sym) = (vp::param(0), vp::param(1) as usize, vp::param(2) == 0, vp::param(3));
    let fixed = |k: usize| ((k * 7) % 11) as f32 - 4.0;
    let mut m = [[0.0; 4]; 4];
    let mut p = vec![[0.0; 4]; n];
    for (i, x) in m.iter_mut().flatten().enumerate() {
        *x = if sym == 0 { fixed(i) } else { vp::real() };
    }
    // special matrices: none, identity, onto a plane, onto a line, to a point, mirrored, with a perspective, uneven, a turn, tiny
    let kind = vp::param(4);
    if kind > 0 {
        m = [[0.0; 4]; 4];
        (0..4).for_each(|i| m[i][i] = 1.0);
    }
    match kind {
        3 => m[1][1] = 0.0,
        4 => m[..3].copy_from_slice(&[[1.0, 2.0, 3.0, 0.0], [2.0, 4.0, 6.0, 0.0], [0.0; 4]]),
        5 => m = [[0.0; 4]; 4],
        6 => m[0][0] = -1.0,
        7 => (0..4).for_each(|i| m[i][3] = [0.5, 0.0, -0.25, 2.0][i]),
        8 => m[..3].copy_from_slice(&[[2.0, 0.0, 0.0, 0.0], [1.0, 0.5, 0.0, 0.0], [0.0, 0.0, 3.0, 0.0]]),
        9 => m = [[0.0, 1.0, 0.0, 0.0], [-1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [5.0, -6.0, 7.0, 1.0]],
        10 => (0..3).for_each(|i| m[i][i] = 1.0e-5),
        11 => m[3] = [1.0, 2.0, 3.0, 0.0],
        _ => {}
    }
    for (i, x) in p.iter_mut().flatten().enumerate() {
        // of many vectors only the last one is arbitrary
        *x = if sym == 1 || n > 10 && i / 4 + 1 < n { fixed(i % 40 + 3) } else { vp::real() };
    }
    let w = f32::from_bits(vp::conc(if points { 1.0f32.to_bits() } else { 0 } as u64) as u32);
    let d = data(c, &p);
    let r = if points { transform_points(&d, &m) } else { transform_vectors(&d, &m) };
    let (rc, r) = flat(&r);
    vp::check(rc == c && r.len() == n * c as usize, "components");
    for (k, p) in p.iter().enumerate() {
        let q = [p[0], p[1], if c == 2 { 0.0 } else { p[2] }, w];
        for i in 0..(c as usize).min(3) {
            let e = m[0][i] * q[0] + m[1][i] * q[1] + m[2][i] * q[2] + m[3][i] * q[3];
            let r = r[k * c as usize + i];
            // (summed in this order, or else in another)
            vp::check(r.to_bits() == e.to_bits() || (r - e).abs() <= 0.05, "transformed");
        }
        if c == 4 {
            vp::check(r[k * 4 + 3].to_bits() == p[3].to_bits(), "fourth");
        }
    }
    vp::reach("same");
}

/// the bounding volumes of the given points
fn bounds(b: &BoundingInfo, p: &[[f32; 4]], sphere: bool) {
    let (lo, hi) = (b.bounding_volume.min.to_array(), b.bounding_volume.max.to_array());
    let (c, s) = (b.oriented_bounding_box.center.to_array(), b.oriented_bounding_box.size.to_array());
    for i in 0..3 {
        if p.is_empty() {
            vp::check(lo[i] == 0.0 && hi[i] == 0.0, "empty");
        } else {
            let (mut holds, mut low, mut high) = (true, false, false);
            for v in p {
                holds &= (lo[i] <= v[i]) & (v[i] <= hi[i]);
                low |= lo[i] == v[i];
                high |= hi[i] == v[i];
            }
            vp::check(holds & low & high, "volume");
        }
        vp::check((c[i] - (lo[i] + hi[i]) * 0.5).abs() <= 0.01, "box.center");
        vp::check((s[i] - (hi[i] - lo[i]) * 0.5).abs() <= 0.01, "box.size");
    }
    vp::check(eq(&b.oriented_bounding_box.transform.to_cols_array().concat(), &[1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0]), "box.axes");
    let (c, r) = (b.bounding_sphere.center.to_array(), b.bounding_sphere.radius);
    if p.is_empty() {
        vp::check(eq(&c, &[0.0; 3]) && r == 0.0, "sphere.empty");
    } else if sphere {
        // around the mean, just as far as the farthest point
        let mut m = [0.0f32; 3];
        p.iter().for_each(|v| (0..3).for_each(|i| m[i] += v[i]));
        m.iter_mut().for_each(|x| *x /= p.len() as f32);
        vp::check(eq(&c, &m) || (0..3).all(|i| (c[i] - m[i]).abs() <= 0.01), "sphere.center");
        let d: Vec<f32> = p.iter().map(|v| (v[0] - c[0]) * (v[0] - c[0]) + (v[1] - c[1]) * (v[1] - c[1]) + (v[2] - c[2]) * (v[2] - c[2])).collect();
        let mut far = 0.0;
        d.iter().for_each(|x| if *x > far { far = *x });
        vp::check(r.to_bits() == far.sqrt().to_bits() || (r - far.sqrt()).abs() <= 0.01, "sphere.radius");
    }
}
/// [version, components, points of the first object, of the second, points on a line]
#[no_mangle]
pub extern "C" fn b_info() {
    let (ver, c, line) = (vp::param(0), vp::param(1), vp::param(4) != 0);
    let mut all = Vec::new();
    let mut counts = Vec::new();
    let objects = [2, 3]
        .into_iter()
        .filter(|k| vp::param(*k) != 99)
        .map(|k| {
            let n = vp::param(k) as usize;
            let p: Vec<[f32; 4]> = (0..n).map(|i| if n > 10 && i + 1 < n { [(i % 37) as f32 - 18.0, (i % 41) as f32 * 0.5, if c == 2 { 0.0 } else { (i % 29) as f32 }, 0.0] } else if line { [small(), 0.0, 0.0, 0.0] } else { [small(), small(), if c == 2 { 0.0 } else { small() }, 0.0] }).collect();
            all.extend(p.clone());
            counts.push(n);
            // nothing but the positions matters
            MeshObjectData {
                name: k.to_string(),
                subindex: k,
                parent_bone_name: if k == 3 { "Head".into() } else { String::new() },
                sort_bias: if k == 3 { -1 } else { 0 },
                disable_depth_write: k == 3,
                disable_depth_test: k == 3,
                positions: vec![AttributeData { name: "Position0".into(), data: data(c, &p) }],
                ..Default::default()
            }
        })
        .collect();
    let d = MeshData { major_version: 1, minor_version: ver as u16, objects };
    let Ok(m) = Mesh::try_from(&d) else {
        return vp::fail("create");
    };
    let infos: Vec<&BoundingInfo> = match &m {
        Mesh::V8(m) => std::iter::once(&m.bounding_info).chain(m.objects.elements.iter().map(|o| &o.bounding_info)).collect(),
        Mesh::V9(m) => std::iter::once(&m.bounding_info).chain(m.objects.elements.iter().map(|o| &o.bounding_info)).collect(),
        Mesh::V10(m) => std::iter::once(&m.bounding_info).chain(m.objects.elements.iter().map(|o| &o.bounding_info)).collect(),
    };
    vp::check(infos.len() == counts.len() + 1, "objects");
    bounds(infos[0], &all, line);
    let mut at = 0;
    for (i, n) in counts.iter().enumerate() {
        bounds(infos[i + 1], &all[at..at + n], line);
        at += n;
    }
    vp::reach("bounds");
}

fn cross(a: [f32; 3], b: [f32; 3]) -> [f32; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: [f32; 3], b: [f32; 3]) -> f32 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn sub(a: [f32; 3], b: [f32; 3]) -> [f32; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn times(a: [f32; 3], k: f32) -> [f32; 3] {
    [a[0] * k, a[1] * k, a[2] * k]
}
fn add(a: &mut [f32; 3], b: [f32; 3]) {
    (0..3).for_each(|i| a[i] += b[i]);
}
/// of length one, or nothing at all
fn unit(a: [f32; 3]) -> [f32; 3] {
    let r = 1.0 / dot(a, a).sqrt();
    if (r.to_bits() << 1 < 0xff00_0000) & (r > 0.0) {
        times(a, r)
    } else {
        [0.0; 3]
    }
}
/// the same vector, but for the order in which it was summed up
fn near(a: &[f32], b: &[f32]) -> bool {
    eq(a, b) || a.len() == b.len() && a.iter().zip(b).fold(true, |k, (x, y)| k & ((x - y).abs() <= 0.01))
}
/// Points without structure, the one in place `s` moved in `axis` to one of several places.
fn points(comps: u64, n: usize, seed: usize, s: usize, axis: usize) -> (Vec<[f32; 3]>, VectorData) {
    let mut p: Vec<[f32; 4]> = (0..n).map(|i| [0, 1, 2, 3].map(|j| (((i + seed) * 7 + j * 5 + (i + seed) * (i + j)) % 13) as f32 * 0.5 - 2.0)).collect();
    for (i, v) in p.iter_mut().enumerate() {
        // not looked at
        v[3] = vp::f32();
        if i == s {
            v[axis] = [0.0, 1.0, -2.0, 0.5, -1.5, 1024.0, 0.25, 3.0][vp::choice(8) as usize];
        }
    }
    let d = data(comps, &p);
    (p.iter().map(|v| [v[0], v[1], if comps == 2 { 0.0 } else { v[2] }]).collect(), d)
}
fn indices(n: usize, count: usize) -> Vec<u32> {
    // the first four: any
    (0..count).map(|i| if i < 4 && n < 10 { vp::choice(n as u64) as u32 } else { (i * 5 + i / 3) as u32 % n as u32 }).collect()
}
/// [components, vertices, indices, place of the vertex that is moved, axis]
#[no_mangle]
pub extern "C" fn n_normals() {
    let (c, n, count) = (vp::param(0), vp::param(1) as usize, vp::param(2) as usize);
    let (p, d) = points(c, n, 0, vp::param(3) as usize, vp::param(4) as usize);
    let idx = indices(n, count);
    let r = calculate_smooth_normals(&d, &idx);
    vp::reach("normals");
    if n == 0 || count == 0 {
        return vp::check(r.is_empty(), "nothing");
    }
    vp::check(r.len() == n, "count");
    let mut e = vec![[0.0; 3]; n];
    for f in idx.chunks_exact(3) {
        let [a, b, c] = [f[0] as usize, f[1] as usize, f[2] as usize];
        let v = cross(sub(p[b], p[a]), sub(p[c], p[a]));
        [a, b, c].iter().for_each(|k| add(&mut e[*k], v));
    }
    for (r, e) in r.iter().zip(e) {
        vp::check(near(r, &unit(e)), "normal");
    }
}
fn or(a: [f32; 3], b: [f32; 3]) -> [f32; 3] {
    if dot(a, a) == 0.0 {
        b
    } else {
        a
    }
}
/// [components of positions, normals, texture coordinates, vertices, normals, texture coordinates, indices,
///  place of the vertex that is moved, axis, which of the three has it]
#[no_mangle]
pub extern "C" fn n_tangents() {
    let (n, nn, nu, count) = (vp::param(3) as usize, vp::param(4) as usize, vp::param(5) as usize, vp::param(6) as usize);
    let (s, axis, which) = (vp::param(7) as usize, vp::param(8) as usize, vp::param(9));
    let at = |k: u64| if which == k { s } else { usize::MAX };
    let (p, pd) = points(vp::param(0), n, 0, at(0), axis);
    let (m, md) = points(vp::param(1), nn, 3, at(1), axis);
    let (u, ud) = points(vp::param(2), nu, 8, at(2), axis);
    let idx = indices(n.max(1), count);
    let r = calculate_tangents_vec4(&pd, &md, &ud, &idx);
    if count % 3 != 0 || n != nn || n != nu {
        vp::reach("refused");
        return vp::check(r.is_err(), "refused");
    }
    vp::reach("tangents");
    let Ok(r) = r else {
        return vp::fail("accepted");
    };
    vp::check(r.len() == n, "count");
    let (mut t, mut b) = (vec![[0.0; 3]; n], vec![[0.0; 3]; n]);
    for f in idx.chunks_exact(3) {
        let [i, j, k] = [f[0] as usize, f[1] as usize, f[2] as usize];
        let (x, y) = (sub(p[j], p[i]), sub(p[k], p[i]));
        let (v, w) = (sub(u[j], u[i]), sub(u[k], u[i]));
        let det = v[0] * w[1] - w[0] * v[1];
        let q = if det != 0.0 { 1.0 / det } else { 1.0 };
        let tan = or(times(sub(times(x, w[1]), times(y, v[1])), q), [1.0, 0.0, 0.0]);
        let bit = or(times(sub(times(y, v[0]), times(x, w[0])), q), [0.0, 1.0, 0.0]);
        for g in [i, j, k] {
            add(&mut t[g], tan);
            add(&mut b[g], bit);
        }
    }
    for i in 0..n {
        let tan = unit(or(t[i], [1.0, 0.0, 0.0]));
        let mut bit = or(b[i], [0.0, 1.0, 0.0]);
        let c = cross(bit, m[i]);
        if dot(c, c) != 0.0 {
            let o = sub(bit, times(m[i], dot(m[i], bit)));
            let l = dot(o, o).sqrt();
            bit = o.map(|x| x / l);
        }
        let side = dot(cross(tan, unit(bit)), m[i]);
        vp::check(near(&r[i][..3], &tan), "tangent");
        let w = r[i][3];
        vp::check((w == 1.0) | (w == -1.0), "sign.one");
        // (too close to the plane for a different order of the sums)
        vp::check((side.abs() <= 0.01) | ((w > 0.0) == (side >= 0.0)), "sign");
    }
}
