//! The types that are kept in files, and what they offer.
use crate::{gen::G, vp};
use ssbh_data::prelude::*;
use ssbh_lib::prelude::*;
use std::io::{Cursor, Read, Seek, Write};

pub fn gen() -> G {
    // 1: variant, 2: default inner variant, 3: array length, 4: string length, 8: symbolic numbers, 9: deviations
    let mut g = G::new();
    g.top = Some(vp::param(1) as u32).filter(|k| *k != 99);
    (g.var, g.len, g.slen, g.dev, g.fixed, g.hex) = (vp::param(2) as u32, vp::param(3), vp::param(4), vp::param(9), vp::param(8) == 0, true);
    g
}
/// what a type offers
pub trait File: Sized {
    fn make() -> Self;
    fn save(&self, p: &str) -> bool;
    fn load(p: &str) -> Option<Self>;
    fn put<W: Write + Seek>(&self, w: &mut W) -> bool;
    fn get<R: Read + Seek>(r: &mut R) -> Option<Self>;
}
macro_rules! file {
    ($($t:ty),*) => { $(impl File for $t {
        fn make() -> Self {
            gen().make()
        }
        fn save(&self, p: &str) -> bool {
            self.write_to_file(p).is_ok()
        }
        fn load(p: &str) -> Option<Self> {
            <$t>::from_file(p).ok()
        }
        fn put<W: Write + Seek>(&self, w: &mut W) -> bool {
            self.write(w).is_ok()
        }
        fn get<R: Read + Seek>(r: &mut R) -> Option<Self> {
            <$t>::read(r).ok()
        }
    })* };
}
file!(Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr, Adj, MeshEx);
macro_rules! data {
    ($($t:ty, $l:ty);*) => { $(impl File for $t {
        /// what a file of the format holds
        fn make() -> Self {
            let mut c = Cursor::new(Vec::new());
            let v: $l = gen().make();
            let ok = v.write(&mut c).is_ok();
            vp::check(ok || vp::param(9) != 0, "template");
            vp::assume(ok);
            c.set_position(0);
            match <$t>::read(&mut c) {
                Ok(v) => v,
                Err(_) => {
                    // the format holds more than the data type supports
                    vp::check(vp::param(9) != 0, "template");
                    vp::assume(false);
                    panic!()
                }
            }
        }
        fn save(&self, p: &str) -> bool {
            self.write_to_file(p).is_ok()
        }
        fn load(p: &str) -> Option<Self> {
            <$t>::from_file(p).ok()
        }
        fn put<W: Write + Seek>(&self, w: &mut W) -> bool {
            self.write(w).is_ok()
        }
        fn get<R: Read + Seek>(r: &mut R) -> Option<Self> {
            <$t>::read(r).ok()
        }
    })* };
}
data!(HlpbData, Hlpb; MatlData, Matl; ModlData, Modl; SkelData, Skel; AdjData, Adj; MeshExData, MeshEx);
impl File for SsbhFile {
    fn make() -> Self {
        SsbhFile { data: gen().make() }
    }
    fn save(&self, p: &str) -> bool {
        self.write_to_file(p).is_ok()
    }
    fn load(p: &str) -> Option<Self> {
        SsbhFile::from_file(p).ok()
    }
    fn put<W: Write + Seek>(&self, w: &mut W) -> bool {
        self.write(w).is_ok()
    }
    fn get<R: Read + Seek>(r: &mut R) -> Option<Self> {
        SsbhFile::read(r).ok()
    }
}
impl File for AnimData {
    fn make() -> Self {
        use ssbh_data::anim_data::*;
        // tracks of every kind, of one frame or two
        let n = 1 + (vp::param(2) % 2) as usize;
        let t = |k: usize| Transform { scale: ssbh_lib::Vector3::new(1.0, 1.0, k as f32), rotation: ssbh_lib::Vector4::new(0.0, 0.0, 0.0, 1.0), translation: ssbh_lib::Vector3::new(k as f32, 2.0, 3.0) };
        let uv = |k: usize| UvTransform { scale_u: 1.0, scale_v: k as f32, rotation: 0.5, translate_u: 2.0, translate_v: k as f32 };
        let kinds = [
            ("Transform", GroupType::Transform, TrackValues::Transform((0..n).map(t).collect())),
            ("DiffuseUVTransform", GroupType::Material, TrackValues::UvTransform((0..n).map(uv).collect())),
            ("CustomFloat0", GroupType::Material, TrackValues::Float((0..n).map(|k| k as f32 + 0.5).collect())),
            ("PatternIndex", GroupType::Material, TrackValues::PatternIndex((0..n).map(|k| k as u32).collect())),
            ("Visibility", GroupType::Visibility, TrackValues::Boolean((0..n).map(|k| k == 0).collect())),
            ("CustomVector3", GroupType::Material, TrackValues::Vector4((0..n).map(|k| ssbh_lib::Vector4::new(1.0, 2.0, k as f32, 0.25)).collect())),
        ];
        let k = vp::param(2) as usize / 2;
        let groups = kinds
            .into_iter()
            .enumerate()
            .filter(|(j, _)| *j == k || k == 6)
            .map(|(j, (name, group_type, values))| {
                let transform_flags = if j == 0 { TransformFlags { override_scale: true, ..Default::default() } } else { Default::default() };
                let track = TrackData { name: name.into(), compensate_scale: j == 0, transform_flags, values };
                GroupData { group_type, nodes: vec![NodeData { name: format!("n{j}"), tracks: vec![track] }] }
            })
            .collect();
        AnimData { major_version: 2, minor_version: vp::param(1) as u16, final_frame_index: n as f32 - 1.0, groups }
    }
    fn save(&self, p: &str) -> bool {
        self.write_to_file(p).is_ok()
    }
    fn load(p: &str) -> Option<Self> {
        AnimData::from_file(p).ok()
    }
    fn put<W: Write + Seek>(&self, w: &mut W) -> bool {
        self.write(w).is_ok()
    }
    fn get<R: Read + Seek>(r: &mut R) -> Option<Self> {
        AnimData::read(r).ok()
    }
}
impl File for MeshData {
    fn make() -> Self {
        use ssbh_data::mesh_data::*;
        let f = |n: usize, k: usize| (n + k) as f32 / 4.0;
        let two = |n: usize| VectorData::Vector2((0..n).map(|k| [f(k, 1), f(k, 2)]).collect());
        let three = |n: usize| VectorData::Vector3((0..n).map(|k| [f(k, 1), f(k, 2), f(k, 3)]).collect());
        let four = |n: usize| VectorData::Vector4((0..n).map(|k| [f(k, 1), f(k, 2), f(k, 3), f(k, 4)]).collect());
        let a = |n: &str, data| vec![AttributeData { name: n.into(), data }];
        let mut o = MeshObjectData { name: "a".into(), positions: a("Position0", three(2)), normals: a("Normal0", three(2)), vertex_indices: vec![0, 1, 0], ..Default::default() };
        let mut objects = vec![];
        match vp::param(2) {
            0 => {}
            1 => {
                o.subindex = 3;
                o.parent_bone_name = "Hip".into();
                o.sort_bias = -5;
                (o.disable_depth_write, o.disable_depth_test) = (true, false);
                o.positions = a("Position0", three(3));
                o.normals = a("Normal0", four(3));
                o.binormals = a("Binormal0", three(3));
                o.tangents = a("Tangent0", four(3));
                o.texture_coordinates = a("map1", two(3));
                o.color_sets = a("colorSet1", four(3));
            }
            _ => {
                let w = |vertex_index, vertex_weight| VertexWeight { vertex_index, vertex_weight };
                o.bone_influences = vec![
                    BoneInfluence { bone_name: "x".into(), vertex_weights: vec![w(0, 1.0), w(1, 0.5)] },
                    BoneInfluence { bone_name: "y".into(), vertex_weights: vec![w(1, 0.5)] },
                ];
                objects.push(MeshObjectData { name: "b".into(), positions: a("Position0", three(0)), ..Default::default() });
            }
        }
        objects.push(o);
        MeshData { major_version: 1, minor_version: 8 + vp::param(1) as u16, objects }
    }
    fn save(&self, p: &str) -> bool {
        self.write_to_file(p).is_ok()
    }
    fn load(p: &str) -> Option<Self> {
        MeshData::from_file(p).ok()
    }
    fn put<W: Write + Seek>(&self, w: &mut W) -> bool {
        self.write(w).is_ok()
    }
    fn get<R: Read + Seek>(r: &mut R) -> Option<Self> {
        MeshData::read(r).ok()
    }
}

pub fn bytes<T: File>(v: &T) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    vp::check(v.put(&mut c), "write");
    c.into_inner()
}
