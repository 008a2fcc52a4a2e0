//! D01: model and helper bone data. X01: adjacency and mesh extension data.
use crate::{gen::G, vp};

fn fit(g: &mut G) {
    g.dev = vp::param(0);
    g.len = vp::param(1);
    g.slen = vp::param(2);
    g.maxlen = vp::param(3);
    g.nan = true;
}
fn text(a: &str, b: &str) -> bool {
    vp::same(a.as_bytes(), b.as_bytes())
}

#[cfg(feature = "d01")]
pub mod d01 {
    use super::*;
    use ssbh_data::{
        hlpb_data::{AimConstraintData, HlpbData, OrientConstraintData},
        modl_data::{ModlData, ModlEntryData},
    };
    use ssbh_lib::{formats::hlpb::*, formats::modl::*, Vector3, Vector4};

    fn same_modl(a: &ModlData, b: &ModlData) {
        vp::check((b.major_version, b.minor_version) == (1, 7), "version");
        vp::check(text(&a.model_name, &b.model_name), "model.name");
        vp::check(text(&a.skeleton_file_name, &b.skeleton_file_name), "skeleton");
        vp::check(text(&a.mesh_file_name, &b.mesh_file_name), "mesh");
        match (&a.animation_file_name, &b.animation_file_name) {
            (Some(a), Some(b)) => vp::check(text(a, b), "animation"),
            (None, None) => vp::reach("absent"),
            _ => vp::fail("animation"),
        }
        vp::check(a.material_file_names.len() == b.material_file_names.len() && a.material_file_names.iter().zip(&b.material_file_names).all(|(a, b)| text(a, b)), "materials");
        vp::check(a.entries.len() == b.entries.len(), "entries");
        for (a, b) in a.entries.iter().zip(&b.entries) {
            vp::check(text(&a.mesh_object_name, &b.mesh_object_name) && a.mesh_object_subindex == b.mesh_object_subindex && text(&a.material_label, &b.material_label), "entry");
        }
    }
    /// [decisions, array length, string length, longest array]
    #[no_mangle]
    pub extern "C" fn d_modl() {
        let mut g = G::new();
        fit(&mut g);
        let d: ModlData = g.make();
        let m = Modl::from(&d);
        let Modl::V17 { model_name, skeleton_file_name, material_file_names, animation_file_name, mesh_file_name, entries } = &m;
        vp::check(model_name.to_str() == Some(&d.model_name) && skeleton_file_name.to_str() == Some(&d.skeleton_file_name) && mesh_file_name.to_str() == Some(&d.mesh_file_name), "stored");
        vp::check(animation_file_name.is_some() == d.animation_file_name.is_some(), "stored");
        vp::check(material_file_names.elements.len() == d.material_file_names.len() && entries.elements.len() == d.entries.len(), "stored");
        same_modl(&d, &ModlData::from(&m));
        vp::reach("same");
    }
    fn v3(a: &Vector3, b: &Vector3) -> bool {
        a.x.to_bits() == b.x.to_bits() && a.y.to_bits() == b.y.to_bits() && a.z.to_bits() == b.z.to_bits()
    }
    fn v4(a: &Vector4, b: &Vector4) -> bool {
        a.x.to_bits() == b.x.to_bits() && a.y.to_bits() == b.y.to_bits() && a.z.to_bits() == b.z.to_bits() && a.w.to_bits() == b.w.to_bits()
    }
    fn same_aim(a: &AimConstraintData, b: &AimConstraintData) {
        vp::check(text(&a.name, &b.name), "aim.name");
        vp::check(text(&a.aim_bone_name1, &b.aim_bone_name1) && text(&a.aim_bone_name2, &b.aim_bone_name2), "aim.bones");
        vp::check(text(&a.aim_type1, &b.aim_type1) && text(&a.aim_type2, &b.aim_type2), "aim.types");
        vp::check(text(&a.target_bone_name1, &b.target_bone_name1) && text(&a.target_bone_name2, &b.target_bone_name2), "aim.targets");
        vp::check(a.unk1 == b.unk1 && a.unk2 == b.unk2, "aim.numbers");
        vp::check(v3(&a.aim, &b.aim) && v3(&a.up, &b.up) && v4(&a.quat1, &b.quat1) && v4(&a.quat2, &b.quat2), "aim.vectors");
    }
    fn same_orient(a: &OrientConstraintData, b: &OrientConstraintData) {
        vp::check(text(&a.name, &b.name), "orient.name");
        vp::check(text(&a.parent_bone_name1, &b.parent_bone_name1) && text(&a.parent_bone_name2, &b.parent_bone_name2), "orient.parents");
        vp::check(text(&a.source_bone_name, &b.source_bone_name) && text(&a.target_bone_name, &b.target_bone_name), "orient.bones");
        vp::check(a.unk_type == b.unk_type, "orient.type");
        vp::check(v3(&a.constraint_axes, &b.constraint_axes) && v3(&a.range_min, &b.range_min) && v3(&a.range_max, &b.range_max), "orient.vectors");
        vp::check(v4(&a.quat1, &b.quat1) && v4(&a.quat2, &b.quat2), "orient.quats");
    }
    /// the tables list every constraint of each kind exactly once, with indices in range
    fn tables(h: &Hlpb) {
        let Hlpb::V11 { aim_constraints, orient_constraints, constraint_indices, constraint_types } = h;
        let (na, no) = (aim_constraints.elements.len(), orient_constraints.elements.len());
        vp::check(constraint_indices.elements.len() == na + no && constraint_types.elements.len() == na + no, "tables.length");
        let mut seen = (vec![0; na], vec![0; no]);
        for (i, t) in constraint_indices.elements.iter().zip(&constraint_types.elements) {
            let s = match t {
                ConstraintType::Aim => &mut seen.0,
                ConstraintType::Orient => &mut seen.1,
            };
            match s.get_mut(*i as usize) {
                Some(c) => *c += 1,
                None => vp::fail("tables.range"),
            }
        }
        vp::check(seen.0.iter().chain(&seen.1).all(|c| *c == 1), "tables.once");
    }
    #[no_mangle]
    pub extern "C" fn d_hlpb() {
        let mut g = G::new();
        fit(&mut g);
        let d: HlpbData = g.make();
        let h = Hlpb::from(&d);
        tables(&h);
        let r = HlpbData::from(&h);
        vp::check((r.major_version, r.minor_version) == (1, 1), "version");
        vp::check(r.aim_constraints.len() == d.aim_constraints.len() && r.orient_constraints.len() == d.orient_constraints.len(), "constraints");
        for (a, b) in d.aim_constraints.iter().zip(&r.aim_constraints) {
            same_aim(a, b);
        }
        for (a, b) in d.orient_constraints.iter().zip(&r.orient_constraints) {
            same_orient(a, b);
        }
        vp::reach("same");
    }
    /// numbers of constraints: [aim, orient]
    #[no_mangle]
    pub extern "C" fn d_counts() {
        let mut g = G::new();
        g.dev = 0;
        g.slen = 1;
        let d = HlpbData {
            major_version: 1,
            minor_version: 1,
            aim_constraints: (0..vp::param(0)).map(|_| g.make()).collect(),
            orient_constraints: (0..vp::param(1)).map(|_| g.make()).collect(),
        };
        let h = Hlpb::from(&d);
        tables(&h);
        let r = HlpbData::from(&h);
        vp::check(r.aim_constraints.len() == d.aim_constraints.len() && r.orient_constraints.len() == d.orient_constraints.len(), "constraints");
        for (a, b) in d.aim_constraints.iter().zip(&r.aim_constraints) {
            same_aim(a, b);
        }
        for (a, b) in d.orient_constraints.iter().zip(&r.orient_constraints) {
            same_orient(a, b);
        }
        vp::reach("same");
    }
    /// any stored file converts, and the tables of the file made from it are valid
    #[no_mangle]
    pub extern "C" fn d_stored() {
        let mut g = G::new();
        fit(&mut g);
        let h: Hlpb = g.make();
        let Hlpb::V11 { aim_constraints, orient_constraints, .. } = &h;
        let d = HlpbData::from(&h);
        vp::check(d.aim_constraints.len() == aim_constraints.elements.len() && d.orient_constraints.len() == orient_constraints.elements.len(), "constraints");
        for (a, b) in d.aim_constraints.iter().zip(&aim_constraints.elements) {
            vp::check(v3(&a.aim, &b.aim) && v3(&a.up, &b.up) && v4(&a.quat1, &b.quat1) && v4(&a.quat2, &b.quat2) && a.unk1 == b.unk1 && a.unk2 == b.unk2, "aim.stored");
            let t = |x: &str, y: &ssbh_lib::SsbhString| text(x, y.to_str().unwrap_or(""));
            vp::check(t(&a.name, &b.name) && t(&a.aim_bone_name1, &b.aim_bone_name1) && t(&a.aim_bone_name2, &b.aim_bone_name2) && t(&a.aim_type1, &b.aim_type1) && t(&a.aim_type2, &b.aim_type2), "aim.stored");
            vp::check(t(&a.target_bone_name1, &b.target_bone_name1) && t(&a.target_bone_name2, &b.target_bone_name2), "aim.stored");
        }
        for (a, b) in d.orient_constraints.iter().zip(&orient_constraints.elements) {
            let t = |x: &str, y: &ssbh_lib::SsbhString| text(x, y.to_str().unwrap_or(""));
            vp::check(t(&a.name, &b.name) && t(&a.parent_bone_name1, &b.parent_bone_name1) && t(&a.parent_bone_name2, &b.parent_bone_name2) && t(&a.source_bone_name, &b.source_bone_name) && t(&a.target_bone_name, &b.target_bone_name), "orient.stored");
            vp::check(a.unk_type == b.unk_type && v3(&a.constraint_axes, &b.constraint_axes) && v3(&a.range_min, &b.range_min) && v3(&a.range_max, &b.range_max) && v4(&a.quat1, &b.quat1) && v4(&a.quat2, &b.quat2), "orient.stored");
        }
        tables(&Hlpb::from(&d));
        vp::reach("stored");
    }
}

#[cfg(feature = "x01")]
pub mod x01 {
    use super::*;
    use ssbh_data::{
        adj_data::{AdjData, AdjEntryData},
        mesh_data::{AttributeData, MeshObjectData, VectorData},
        meshex_data::{EntryFlags, MeshExData, MeshObjectGroupData},
    };
    use ssbh_lib::formats::{
        adj::{Adj, AdjEntry},
        mesh::BoundingSphere,
        meshex::MeshEx,
    };

    /// Adjacency entries of any lengths with any values: [entries, longest, length of all but the first, with one arbitrary value]
    #[no_mangle]
    pub extern "C" fn j_adj() {
        let d = AdjData {
            entries: (0..vp::param(0))
                .map(|i| AdjEntryData {
                    mesh_object_index: vp::u32() as usize,
                    vertex_adjacency: match vp::param(2) {
                        m if m > 0 && i > 0 => (0..m).map(|j| if j + 1 == m { vp::i16() } else { j as i16 }).collect(),
                        _ => (0..vp::choice(vp::param(1) + 1)).map(|_| vp::i16()).collect(),
                    },
                })
                .collect(),
        };
        let a = match Adj::try_from(&d) {
            Ok(a) => a,
            Err(_) => {
                vp::fail("refused");
                panic!()
            }
        };
        vp::check(a.entries.len() == d.entries.len(), "entries");
        let mut at = 0;
        for (e, x) in a.entries.iter().zip(&d.entries) {
            vp::check(e.index_buffer_offset == at * 2 && e.mesh_object_index as usize == x.mesh_object_index, "entry");
            at += x.vertex_adjacency.len() as u32;
        }
        vp::check(a.index_buffer.len() == at as usize, "buffer");
        match AdjData::try_from(&a) {
            Ok(r) => {
                vp::check(r.entries.len() == d.entries.len(), "entries");
                for (x, y) in r.entries.iter().zip(&d.entries) {
                    vp::check(x.mesh_object_index == y.mesh_object_index && x.vertex_adjacency.len() == y.vertex_adjacency.len(), "entry");
                    vp::check(x.vertex_adjacency.iter().zip(&y.vertex_adjacency).fold(true, |t, (p, q)| t & (p == q)), "values");
                }
                vp::reach("same");
            }
            Err(_) => vp::fail("convert"),
        }
    }
    /// Adjacency files with any offsets: [entries, buffer length]
    #[no_mangle]
    pub extern "C" fn j_damaged() {
        let (n, len) = (vp::param(0) as usize, vp::param(1) as usize);
        let entries: Vec<(u32, u32)> = (0..n).map(|_| (vp::u32(), vp::u32())).collect();
        let buffer: Vec<i16> = (0..len).map(|_| vp::i16()).collect();
        let a = Adj { entries: entries.iter().map(|e| AdjEntry { mesh_object_index: e.0, index_buffer_offset: e.1 }).collect(), index_buffer: buffer.clone() };
        let start = |i: usize| entries.get(i).map_or(len, |e| e.1 as usize / 2);
        let good = (0..n).fold(true, |t, i| t & (start(i) <= start(i + 1)) & (start(i + 1) <= len));
        match AdjData::try_from(&a) {
            Ok(r) => {
                vp::check(good, "accepted");
                vp::check(r.entries.len() == n, "entries");
                for (i, e) in r.entries.iter().enumerate() {
                    let (s, t) = (vp::conc(start(i) as u64) as usize, vp::conc(start(i + 1) as u64) as usize);
                    vp::check(e.mesh_object_index == entries[i].0 as usize && e.vertex_adjacency.len() == t - s, "entry");
                    vp::check(e.vertex_adjacency.iter().zip(&buffer[s..t]).fold(true, |t, (p, q)| t & (p == q)), "values");
                }
                vp::reach("same");
            }
            Err(_) => {
                vp::check(!good, "refused");
                vp::reach("error");
            }
        }
    }
    /// the other corners of every face around the vertices at the position of v
    fn expect(same: &dyn Fn(usize, usize) -> bool, n: usize, idx: &[u32]) -> Vec<i16> {
        let mut out = Vec::new();
        for v in 0..n {
            let mut l = Vec::new();
            for w in 0..n {
                if !same(v, w) {
                    continue;
                }
                for f in idx.chunks_exact(3) {
                    for c in 0..3 {
                        if f[c] as usize == w {
                            l.push(f[(c + 1) % 3] as i16);
                            l.push(f[(c + 2) % 3] as i16);
                        }
                    }
                }
            }
            l.truncate(18);
            l.resize(18, -1);
            out.extend(l);
        }
        out
    }
    /// Any faces, with positions that are equal in any pattern: [vertices, faces, kind of positions]
    #[no_mangle]
    pub extern "C" fn j_faces() {
        let (n, nf, kind) = (vp::param(0) as usize, vp::param(1), vp::param(2));
        let mut idx = Vec::new();
        for _ in 0..nf {
            let mut f = [0; 3];
            f.iter_mut().for_each(|x| *x = vp::choice(n as u64) as u32);
            // faces have three distinct corners
            vp::assume(f[0] != f[1] && f[1] != f[2] && f[0] != f[2]);
            idx.extend(f);
        }
        let v = match kind {
            // any values
            0 => {
                let p: Vec<u32> = (0..n).map(|_| vp::u32()).collect();
                let e = AdjEntryData::from_triangle_faces(5, &p, &idx);
                vp::check(e.mesh_object_index == 5, "index");
                (e.vertex_adjacency, expect(&|a, b| p[a] == p[b], n, &idx))
            }
            _ => {
                let p: Vec<[f32; 4]> = (0..n).map(|i| {
                    let mut c = [1.0, 2.0, 3.0, i as f32];
                    // one component is any number
                    c[i % (kind as usize + 1)] = vp::real();
                    c
                }).collect();
                let data = match kind {
                    1 => VectorData::Vector2(p.iter().map(|v| [v[0], v[1]]).collect()),
                    2 => VectorData::Vector3(p.iter().map(|v| [v[0], v[1], v[2]]).collect()),
                    _ => VectorData::Vector4(p.clone()),
                };
                let other = VectorData::Vector2(vec![[0.0; 2]; n]);
                let o = MeshObjectData {
                    positions: vec![AttributeData { name: "p".into(), data }, AttributeData { name: "q".into(), data: other }],
                    vertex_indices: idx.clone(),
                    ..Default::default()
                };
                let e = AdjEntryData::from_mesh_object(9, &o);
                vp::check(e.mesh_object_index == 9, "index");
                let k = kind as usize + 1;
                (e.vertex_adjacency, expect(&|a, b| p[a][..k] == p[b][..k], n, &idx))
            }
        };
        vp::check(v.0.len() == 18 * n, "length");
        vp::check(v.0.iter().zip(&v.1).fold(true, |t, (p, q)| t & (p == q)), "corners");
        vp::reach("faces");
    }
    /// A fan of faces around one vertex, more than fit: [faces]
    #[no_mangle]
    pub extern "C" fn j_fan() {
        let nf = vp::param(0) as u32;
        let idx: Vec<u32> = (0..nf).flat_map(|i| [i + 1, 0, i + 2]).collect();
        let n = nf as usize + 2;
        // the last vertex may coincide with the first
        let p: Vec<u32> = (0..n as u32).map(|i| if i == nf + 1 { vp::u32() } else { i }).collect();
        let e = AdjEntryData::from_triangle_faces(0, &p, &idx);
        let want = expect(&|a, b| p[a] == p[b], n, &idx);
        vp::check(e.vertex_adjacency == want, "corners");
        vp::check(AdjEntryData::from_mesh_object(1, &MeshObjectData::default()) == AdjEntryData { mesh_object_index: 1, vertex_adjacency: vec![] }, "empty");
        vp::reach("faces");
    }

    fn sphere(a: &BoundingSphere, b: &BoundingSphere) -> bool {
        a.center.x.to_bits() == b.center.x.to_bits() && a.center.y.to_bits() == b.center.y.to_bits() && a.center.z.to_bits() == b.center.z.to_bits() && a.radius.to_bits() == b.radius.to_bits()
    }
    fn same_ex(d: &MeshExData, r: &MeshExData) {
        vp::check(d.mesh_object_groups.len() == r.mesh_object_groups.len(), "groups");
        for (a, b) in d.mesh_object_groups.iter().zip(&r.mesh_object_groups) {
            vp::check(text(&a.mesh_object_full_name, &b.mesh_object_full_name) && text(&a.mesh_object_name, &b.mesh_object_name), "names");
            vp::check(sphere(&a.bounding_sphere, &b.bounding_sphere), "sphere");
            vp::check(a.entry_flags.len() == b.entry_flags.len(), "flags");
            let ok = a.entry_flags.iter().zip(&b.entry_flags).fold(true, |t, (p, q)| t & (p.draw_model == q.draw_model) & (p.cast_shadow == q.cast_shadow));
            vp::check(ok, "flags");
        }
    }
    /// [decisions, array length, string length, longest array]
    #[no_mangle]
    pub extern "C" fn j_ex() {
        let mut g = G::new();
        fit(&mut g);
        let d: MeshExData = g.make();
        let m = MeshEx::from(&d);
        same_ex(&d, &MeshExData::from(&m));
        // entries in group order
        let n: usize = d.mesh_object_groups.iter().map(|g| g.entry_flags.len()).sum();
        match (&*m.entries, &*m.entry_flags) {
            (Some(e), Some(f)) => {
                vp::check(e.len() == n && f.0.len() == n, "entries");
                let want: Vec<u32> = d.mesh_object_groups.iter().enumerate().flat_map(|(i, g)| g.entry_flags.iter().map(move |_| i as u32)).collect();
                vp::check(e.iter().zip(&want).all(|(a, b)| a.mesh_object_group_index == *b), "entries");
            }
            _ => vp::fail("entries"),
        }
        vp::reach("same");
    }
    /// entries of a stored file in any order, with any group, and fewer flags than entries: [entries, flags, groups]
    #[no_mangle]
    pub extern "C" fn j_stored() {
        let (n, nf, ng) = (vp::param(0) as usize, vp::param(1) as usize, vp::param(2));
        let mut g = G::new();
        g.dev = 0;
        let d = MeshExData {
            mesh_object_groups: (0..ng).map(|i| MeshObjectGroupData { bounding_sphere: g.make(), mesh_object_full_name: "full".into(), mesh_object_name: "name".into(), entry_flags: if i == 0 { vec![EntryFlags { draw_model: false, cast_shadow: false }; n.max(nf)] } else { vec![] } }).collect(),
        };
        let mut m = MeshEx::from(&d);
        let which: Vec<u32> = (0..n).map(|_| vp::u32()).collect();
        let bits: Vec<(bool, bool)> = (0..nf).map(|_| (vp::bool(), vp::bool())).collect();
        if let Some(e) = m.entries.as_mut() {
            e.truncate(n);
            e.iter_mut().zip(&which).for_each(|(e, w)| e.mesh_object_group_index = *w);
        }
        if let Some(f) = m.entry_flags.as_mut() {
            f.0.truncate(nf);
            f.0.iter_mut().zip(&bits).for_each(|(f, b)| *f = f.with_draw_model(b.0).with_cast_shadow(b.1));
        }
        let r = MeshExData::from(&m);
        vp::check(r.mesh_object_groups.len() as u64 == ng, "groups");
        for (i, x) in r.mesh_object_groups.iter().enumerate() {
            let want: Vec<(bool, bool)> = (0..n.min(nf)).filter(|e| which[*e] as usize == i).map(|e| bits[e]).collect();
            vp::check(x.entry_flags.len() == want.len(), "flags");
            vp::check(x.entry_flags.iter().zip(&want).fold(true, |t, (p, q)| t & (p.draw_model == q.0) & (p.cast_shadow == q.1)), "flags");
        }
        vp::reach("stored");
    }
    /// Groups of a mesh: consecutive objects of the same name. [objects]
    #[no_mangle]
    pub extern "C" fn j_groups() {
        let names = ["a", "b_VIS_O_OBJShape", "faceShape", "c_O_x_VIS"];
        let short = ["a", "b", "face", "c"];
        let os: Vec<MeshObjectData> = (0..vp::param(0))
            .map(|i| MeshObjectData {
                name: names[vp::choice(4) as usize].into(),
                subindex: i,
                positions: if vp::flag() { vec![AttributeData { name: "p".into(), data: VectorData::Vector3(vec![[i as f32, 1.0, 2.0], [i as f32, 3.0, 2.0]]) }] } else { vec![] },
                ..Default::default()
            })
            .collect();
        let d = MeshExData::from_mesh_objects(&os);
        let mut at = 0;
        for (k, g) in d.mesh_object_groups.iter().enumerate() {
            vp::check(k == 0 || d.mesh_object_groups[k - 1].mesh_object_full_name != g.mesh_object_full_name, "merged");
            vp::check(!g.entry_flags.is_empty(), "group.empty");
            let mut any = false;
            for f in &g.entry_flags {
                vp::check(at < os.len() && os[at].name == g.mesh_object_full_name, "group.name");
                vp::check(f.draw_model && f.cast_shadow, "group.flags");
                let c = &g.bounding_sphere;
                if let Some(p) = os[at].positions.first() {
                    any = true;
                    if let VectorData::Vector3(v) = &p.data {
                        for q in v {
                            let s = (q[0] - c.center.x).powi(2) + (q[1] - c.center.y).powi(2) + (q[2] - c.center.z).powi(2);
                            vp::check(s <= c.radius * c.radius * 1.001 + 0.001, "sphere");
                        }
                    }
                }
                at += 1;
            }
            vp::check(any || g.bounding_sphere.radius == 0.0, "sphere.empty");
            let k = names.iter().position(|n| *n == g.mesh_object_full_name).unwrap_or(0);
            vp::check(g.mesh_object_name == short[k], "short.name");
        }
        vp::check(at == os.len(), "group.count");
        same_ex(&d, &MeshExData::from(&MeshEx::from(&d)));
        vp::reach("groups");
    }
}
