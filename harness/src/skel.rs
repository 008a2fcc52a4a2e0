//! S01: skeleton data.
use crate::{gen::G, vp};
use ssbh_data::skel_data::{calculate_relative_transform, error::Error, BillboardType, BoneData, BoneTransformError, SkelData};
use ssbh_lib::{formats::skel::*, Matrix4x4};

type M = [[f32; 4]; 4];
fn fields(m: &Matrix4x4) -> M {
    [&m.col1, &m.col2, &m.col3, &m.col4].map(|c| [c.x, c.y, c.z, c.w])
}
fn bits(m: &M) -> Vec<u8> {
    m.concat().iter().flat_map(|x| x.to_le_bytes()).collect()
}
/// column-major product a * b; exact for small integers
fn mul(a: &M, b: &M) -> M {
    let mut r = [[0.0; 4]; 4];
    for c in 0..4 {
        for i in 0..4 {
            r[c][i] = (0..4).map(|k| a[k][i] as i64 * b[c][k] as i64).sum::<i64>() as f32;
        }
    }
    r
}
const I: M = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];
/// integer matrices of determinant one that do not commute
fn matrix(i: usize) -> M {
    let mut m = I;
    m[i % 4][(i + 1) % 4] = 1.0 + i as f32;
    let mut n = I;
    n[(i + 2) % 4][i % 4] = -1.0;
    let mut t = I;
    t[3] = [1.0 + i as f32, -2.0, 3.0, 1.0];
    mul(&mul(&m, &n), &t)
}
fn near(a: &M, b: &M) -> bool {
    a.concat().iter().zip(b.concat()).all(|(x, y)| (x - y).abs() <= 1e-3)
}
fn bone(name: String, transform: M, parent_index: Option<usize>) -> BoneData {
    BoneData { name, transform, parent_index, billboard_type: BillboardType::Disabled }
}
fn skel(bones: Vec<BoneData>) -> SkelData {
    SkelData { major_version: 1, minor_version: 0, bones }
}
fn same(a: &SkelData, b: &SkelData) {
    vp::check((b.major_version, b.minor_version) == (1, 0), "version");
    vp::check(a.bones.len() == b.bones.len(), "bones");
    for (x, y) in a.bones.iter().zip(&b.bones) {
        vp::check(vp::same(x.name.as_bytes(), y.name.as_bytes()), "name");
        vp::check(x.parent_index == y.parent_index, "parent");
        vp::check(x.billboard_type == y.billboard_type, "billboard");
        vp::check(vp::same(&bits(&x.transform), &bits(&y.transform)), "transform");
    }
}

/// Any names, transforms and billboards; one parent at a time is absent, another bone, or dangling.
/// [bones]
#[no_mangle]
pub extern "C" fn k_rt() {
    let n = vp::param(0) as usize;
    let mut g = G::new();
    if vp::param(1) > 0 {
        g.maxlen = vp::param(1);
    }
    let at = vp::choice(n as u64) as usize;
    let parents = [None, Some(n - 1), Some(n), Some(32766), Some(32767), Some(32768), Some(65535), Some(65536), Some(1 << 32), Some(usize::MAX)];
    let bones: Vec<_> = (0..n)
        .map(|i| {
            let mut m = I;
            m.iter_mut().flatten().for_each(|x| *x = vp::f32());
            let parent = if i == at { parents[vp::choice(10) as usize] } else { i.checked_sub(1) };
            BoneData { name: g.make(), transform: m, parent_index: parent, billboard_type: g.make() }
        })
        .collect();
    let d = skel(bones);
    let far = d.bones.iter().any(|b| b.parent_index.map_or(false, |p| p > 32767));
    let cycle = cyclic(&d);
    match Skel::try_from(&d) {
        Ok(s) => {
            vp::check(!far && !cycle, "accepted");
            let Skel::V10 { bone_entries, transforms, world_transforms, inv_world_transforms, inv_transforms } = &s;
            vp::check([transforms, world_transforms, inv_world_transforms, inv_transforms].iter().all(|t| t.elements.len() == n), "transforms");
            vp::check(bone_entries.elements.iter().enumerate().all(|(i, e)| e.index as usize == i), "index");
            for (t, b) in transforms.elements.iter().zip(&d.bones) {
                vp::check(vp::same(&bits(&fields(t)), &bits(&b.transform)), "transform.stored");
            }
            same(&d, &SkelData::from(&s));
            vp::reach("same");
        }
        Err(Error::BoneTransform(BoneTransformError::CycleDetected { .. })) => vp::check(cycle, "cycle"),
        Err(_) => {
            vp::check(far, "refused");
            vp::reach("refused");
        }
    }
}
/// some bone's ancestors never end
fn cyclic(d: &SkelData) -> bool {
    d.bones.iter().any(|b| {
        let mut b = b;
        for _ in 0..d.bones.len() {
            match b.parent_index.and_then(|p| d.bones.get(p)) {
                Some(p) => b = p,
                None => return false,
            }
        }
        true
    })
}
/// Every parent assignment, exact integer transforms. [bones]
#[no_mangle]
pub extern "C" fn k_world() {
    let n = vp::param(0) as usize;
    let bones = (0..n)
        .map(|i| {
            let p = vp::choice(n as u64 + 2) as usize;
            // n: no parent, n + 1: a parent that does not exist
            bone(String::from("b"), matrix(i), if p == n { None } else { Some(if p > n { n + 7 } else { p }) })
        })
        .collect();
    hierarchy(skel(bones));
}
/// quarter turns with integer offsets: exact however deep
fn turn(i: usize) -> M {
    let mut m = I;
    let (a, b) = (i % 3, (i + 1) % 3);
    m[a] = [0.0; 4];
    m[b] = [0.0; 4];
    m[a][b] = 1.0;
    m[b][a] = -1.0;
    m[3] = [1.0 + i as f32, -2.0, 3.0 + 2.0 * (i % 5) as f32, 1.0];
    m
}
/// Deep hierarchies: a chain in some order in which one bone has any parent. [bones, step of the order]
#[no_mangle]
pub extern "C" fn k_deep() {
    let (n, step) = (vp::param(0) as usize, vp::param(1) as usize);
    // bone i stands at place order[i] of the chain
    let order: Vec<usize> = (0..n).map(|i| i * step % n).collect();
    let at = vp::choice(n as u64) as usize;
    let to = vp::choice(n as u64 + 2) as usize;
    let bones = (0..n)
        .map(|i| {
            let p = if i == at { to } else { order[i].checked_sub(1).map_or(n, |k| order.iter().position(|x| *x == k).unwrap()) };
            bone(String::from("b"), turn(i), if p == n { None } else { Some(if p > n { n + 7 } else { p }) })
        })
        .collect();
    hierarchy(skel(bones));
}
fn hierarchy(d: SkelData) {
    let n = d.bones.len();
    let cycle = cyclic(&d);
    // from the root down
    fn world(d: &SkelData, i: usize) -> M {
        match d.bones[i].parent_index {
            Some(p) if p < d.bones.len() => mul(&world(d, p), &d.bones[i].transform),
            _ => d.bones[i].transform,
        }
    }
    match Skel::try_from(&d) {
        Ok(s) => {
            vp::check(!cycle, "cycle");
            same(&d, &SkelData::from(&s));
            let Skel::V10 { transforms, world_transforms, inv_world_transforms, inv_transforms, .. } = &s;
            for i in 0..n {
                let w = world(&d, i);
                vp::check(fields(&world_transforms.elements[i]) == w, "world");
                vp::check(d.calculate_world_transform(&d.bones[i]).ok() == Some(w), "world");
                vp::check(near(&mul_f(&fields(&inv_world_transforms.elements[i]), &w), &I), "inverse.world");
                vp::check(near(&mul_f(&fields(&inv_transforms.elements[i]), &fields(&transforms.elements[i])), &I), "inverse");
            }
            vp::reach("world");
        }
        Err(Error::BoneTransform(BoneTransformError::CycleDetected { index })) => {
            vp::check(cycle, "cycle");
            // the reported bone is part of a cycle
            let mut b = &d.bones[index];
            let mut back = false;
            for _ in 0..n {
                match b.parent_index {
                    Some(p) if p < n => {
                        back |= p == index;
                        b = &d.bones[p];
                    }
                    _ => break,
                }
            }
            vp::check(back, "cycle.index");
            vp::reach("cycle");
        }
        Err(_) => vp::fail("refused"),
    }
}
fn mul_f(a: &M, b: &M) -> M {
    let mut r = [[0.0; 4]; 4];
    for c in 0..4 {
        for i in 0..4 {
            r[c][i] = (0..4).map(|k| a[k][i] * b[c][k]).sum();
        }
    }
    r
}
/// Any stored bones: parents of any value, arrays of different lengths. [bones, transforms]
#[no_mangle]
pub extern "C" fn k_read() {
    let (n, t) = (vp::param(0), vp::param(1));
    let mut g = G::new();
    let mut p = Vec::new();
    let entries: Vec<SkelBoneEntry> = (0..n)
        .map(|_| {
            p.push(vp::i16());
            SkelBoneEntry { name: g.make(), index: vp::u16(), parent_index: p[p.len() - 1], flags: SkelEntryFlags { unk1: vp::u8(), billboard_type: g.make() } }
        })
        .collect();
    let ms: Vec<Matrix4x4> = (0..t)
        .map(|_| {
            let mut m = I;
            m.iter_mut().flatten().for_each(|x| *x = vp::f32());
            let v = |i: usize| ssbh_lib::Vector4::new(m[i][0], m[i][1], m[i][2], m[i][3]);
            Matrix4x4 { col1: v(0), col2: v(1), col3: v(2), col4: v(3) }
        })
        .collect();
    let s = Skel::V10 { bone_entries: entries.clone().into(), world_transforms: vec![].into(), inv_world_transforms: vec![].into(), transforms: ms.clone().into(), inv_transforms: vec![].into() };
    let d = SkelData::from(&s);
    vp::check(d.bones.len() as u64 == n.min(t), "bones");
    for (i, b) in d.bones.iter().enumerate() {
        vp::check(vp::same(b.name.as_bytes(), entries[i].name.to_str().unwrap_or("").as_bytes()), "name");
        vp::check(b.parent_index == if p[i] < 0 { None } else { Some(p[i] as usize) }, "parent");
        vp::check(b.billboard_type == entries[i].flags.billboard_type, "billboard");
        vp::check(vp::same(&bits(&b.transform), &bits(&fields(&ms[i]))), "transform");
    }
    vp::reach("read");
}
/// A long chain, optionally closed to a cycle. [bones, bone the root points to or none]
#[no_mangle]
pub extern "C" fn k_chain() {
    let (n, to) = (vp::param(0) as usize, vp::param(1) as usize);
    let mut t = I;
    t[3][0] = 1.0;
    let d = skel((0..n).map(|i| bone(String::from("b"), t, if i == 0 { (to < n).then_some(to) } else { Some(i - 1) })).collect());
    match Skel::try_from(&d) {
        Ok(Skel::V10 { world_transforms, .. }) => {
            vp::check(to >= n, "cycle");
            vp::check((0..n).all(|i| world_transforms.elements[i].col4.x == i as f32 + 1.0), "world");
        }
        Err(_) => vp::check(to < n, "refused"),
    }
    vp::reach("chain");
}
/// any bounded affine transform
fn affine(mask: u64) -> M {
    let mut m = I;
    for c in 0..4 {
        for r in 0..3 {
            if mask == 0 || (mask == 1 && c == 3) {
                let x = vp::real();
                vp::assume((x >= -16.0) & (x <= 16.0));
                m[c][r] = x;
            }
        }
    }
    m
}
/// the same, or nearly
fn close(a: &M, b: &M, site: &'static str) {
    for (x, y) in a.concat().iter().zip(b.concat()) {
        vp::check(x.to_bits() == y.to_bits() || (x - y).abs() <= 0.02, site);
    }
}
/// A chain of bones in which one has any transform. [bones, which, whole matrix or offset only]
#[no_mangle]
pub extern "C" fn k_any() {
    let (n, at) = (vp::param(0) as usize, vp::param(1) as usize);
    let d = skel((0..n).map(|i| bone(String::from("b"), if i == at { affine(vp::param(2)) } else { turn(i) }, i.checked_sub(1))).collect());
    let Ok(Skel::V10 { world_transforms, transforms, inv_world_transforms, inv_transforms, .. }) = Skel::try_from(&d) else {
        return vp::fail("refused");
    };
    let mut w = I;
    for i in 0..n {
        w = if i == 0 { d.bones[0].transform } else { mul_f(&w, &d.bones[i].transform) };
        let x = fields(&world_transforms.elements[i]);
        close(&x, &w, "world");
        vp::check(vp::same(&bits(&fields(&transforms.elements[i])), &bits(&d.bones[i].transform)), "transform");
        match d.calculate_world_transform(&d.bones[i]) {
            Ok(y) => close(&y, &w, "world"),
            Err(_) => vp::fail("refused"),
        }
        if vp::param(2) == 1 {
            close(&mul_f(&fields(&inv_world_transforms.elements[i]), &x), &I, "inverse.world");
            close(&mul_f(&fields(&inv_transforms.elements[i]), &d.bones[i].transform), &I, "inverse");
        }
    }
    vp::reach("any");
}

/// The relative transform leads back to the world transform it was made from. [case, which]
#[no_mangle]
pub extern "C" fn k_relative() {
    let k = vp::param(1) as usize;
    let any = |_: ()| affine(0);
    // parent and child
    let scale = |s: f32| [[s, 0.0, 0.0, 0.0], [0.0, s, 0.0, 0.0], [0.0, 0.0, s, 0.0], [0.0, 0.0, 0.0, 1.0]];
    let (p, w) = match vp::param(0) {
        // no parent
        0 => {
            let w = [(); 4].map(|_| [(); 4].map(|_| vp::f32()));
            vp::check(vp::same(&bits(&calculate_relative_transform(&w, None)), &bits(&w)), "alone");
            return vp::reach("relative");
        }
        // a parent at the origin
        1 => (I, any(())),
        // offsets only: one fixed, or both any
        2 => (turn_offset(k), affine(1)),
        3 => (affine(1), turn_offset(k)),
        // around the same point: scaled evenly
        4 => (scale([0.5, 2.0, 4.0, 0.125][k]), {
            let mut w = any(());
            w[3] = I[3];
            w
        }),
        // turned (and moved) alike
        5 => (turn(k), turn(k)),
        // around the same axis
        6 => {
            let mut t = turn(k);
            t[3] = I[3];
            (t, mul_f(&t, &t))
        }
        // in general
        7 => ([turn(k), matrix(k)][k % 2], matrix(k + 1)),
        _ => ([turn(k), matrix(k)][k % 2], any(())),
    };
    let r = calculate_relative_transform(&w, Some(&p));
    let d = skel(vec![bone(String::from("p"), p, None), bone(String::from("c"), r, Some(0))]);
    let Ok(x) = d.calculate_world_transform(&d.bones[1]) else {
        return vp::fail("refused");
    };
    vp::reach("relative");
    if vp::param(0) < 8 {
        return close(&x, &w, if vp::param(0) == 7 { "order" } else { "back" });
    }
    // at least the two lead back in one order
    let off = |a: &M| a.concat().iter().zip(w.concat()).fold(false, |o, (x, y)| o | ((x - y).abs() > 0.02));
    vp::check(!off(&x) | !off(&mul_f(&r, &p)), "neither");
}
fn turn_offset(i: usize) -> M {
    let mut m = I;
    m[3] = turn(i)[3];
    m
}
