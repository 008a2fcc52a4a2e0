//! J01: JSON export and import.
use crate::{gen::G, vp};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use ssbh_lib::prelude::*;
use ssbh_lib::{CString, SsbhArray, SsbhByteBuffer, SsbhString, SsbhString8};
use std::io::Cursor;

/// out and in again, as the command line tools do
fn there<T: Serialize + DeserializeOwned>(v: &T) -> Option<T> {
    let Ok(t) = serde_json::to_string_pretty(v) else {
        vp::fail("export");
        return None;
    };
    vp::log_bytes(t.as_bytes());
    match serde_json::from_str::<T>(&t) {
        Ok(w) => Some(w),
        Err(_) => {
            vp::fail("import");
            None
        }
    }
}
fn gen() -> G {
    // 0: outermost variant, 1: deviations, 2: default enum variant, 3: array length, 4: string length, 5: longest array, 6: extreme numbers
    let mut g = G::new();
    g.top = Some(vp::param(0) as u32).filter(|k| *k != 99);
    g.dev = vp::param(1);
    g.var = vp::param(2) as u32;
    g.len = vp::param(3);
    g.slen = vp::param(4);
    g.maxlen = vp::param(5);
    g.fixed = true;
    g.extreme = vp::param(6) != 0;
    g.hex = true;
    g
}
macro_rules! survives {
    ($eq:expr; $($name:ident $t:ty),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $name() {
            let v: $t = gen().make();
            if let Some(w) = there(&v) {
                let eq: fn(&$t, &$t) -> bool = $eq;
                vp::check(eq(&v, &w), "equal");
                vp::reach("survives");
            }
        }
    )* };
}
#[no_mangle]
pub extern "C" fn j_file() {
    let v: Ssbh = gen().make();
    vp::assume(!matches!(&v, Ssbh::Modl(v) if nested(&v.data)));
    if let Some(w) = there(&v) {
        vp::check(format!("{v:?}") == format!("{w:?}"), "equal");
        vp::reach("survives");
    }
}
survives! { |a, b| format!("{a:?}") == format!("{b:?}");
    j_meshd ssbh_data::mesh_data::MeshData, j_shdrd ssbh_data::shdr_data::ShdrData,
}
survives! { |a, b| a == b;
    j_skel Skel, j_hlpb Hlpb, j_nlst Nlst, j_nufx Nufx, j_shdr Shdr, j_matl Matl, j_mesh Mesh, j_anim Anim, j_nrpd Nrpd, j_adj Adj, j_meshex MeshEx,
    j_modld ssbh_data::modl_data::ModlData, j_skeld ssbh_data::skel_data::SkelData, j_hlpbd ssbh_data::hlpb_data::HlpbData, j_matld ssbh_data::matl_data::MatlData,
    j_animd ssbh_data::anim_data::AnimData, j_adjd ssbh_data::adj_data::AdjData, j_meshexd ssbh_data::meshex_data::MeshExData,
}

/// a present pointer to a null string, which JSON writes as null like the null pointer
fn nested(v: &Modl) -> bool {
    let Modl::V17 { animation_file_name, .. } = v;
    matches!(animation_file_name.as_ref(), Some(s) if s.to_str().is_none())
}
#[no_mangle]
pub extern "C" fn j_modl() {
    let v: Modl = gen().make();
    vp::assume(!nested(&v));
    if let Some(w) = there(&v) {
        vp::check(v == w, "equal");
        vp::reach("survives");
    }
}
#[no_mangle]
pub extern "C" fn j_nested() {
    let v: Modl = gen().make();
    vp::assume(nested(&v));
    vp::reach("nested");
    if let Some(w) = there(&v) {
        vp::check(v == w, "nested");
    }
}

/// Text of `n` characters: any ASCII character, or the two-byte characters.
fn any_text(n: usize) -> String {
    let mut b = Vec::new();
    for _ in 0..n {
        if vp::choice(2) == 0 {
            let c = vp::u8();
            vp::assume(c < 0x80);
            b.push(c);
        } else {
            let (c, d) = (vp::u8(), vp::u8());
            vp::assume((c >= 0xc2) & (c < 0xe0) & (d & 0xc0 == 0x80));
            b.extend([c, d]);
        }
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// strings made from text: equal after export and import
#[no_mangle]
pub extern "C" fn j_text() {
    let s = any_text(vp::param(0) as usize);
    let whole = s.bytes().all(|b| b != 0);
    let t = match vp::param(1) {
        0 => {
            let v = SsbhString::from(s.as_str());
            there(&v).map(|w| {
                vp::check(v == w, "equal");
                w.to_string_lossy()
            })
        }
        1 => {
            let v = SsbhString8::from(s.as_str());
            there(&v).map(|w| {
                vp::check(v == w, "equal");
                w.to_string_lossy()
            })
        }
        _ => {
            let v = CString::<4>::from(s.as_str());
            there(&v).map(|w| {
                vp::check(v == w, "equal");
                w.to_string_lossy()
            })
        }
    };
    if let Some(t) = t {
        vp::check(!whole || vp::same(t.as_bytes(), s.as_bytes()), "text");
        vp::reach("survives");
    }
}
/// any text that JSON can express imports as a string that binary files keep
#[no_mangle]
pub extern "C" fn j_import() {
    let s = any_text(vp::param(0) as usize);
    let t = serde_json::to_string(&s).unwrap();
    vp::log_bytes(t.as_bytes());
    let Ok(name) = serde_json::from_str::<SsbhString>(&t) else {
        // refused; text without NUL may not be
        vp::reach("refused");
        return vp::check(s.bytes().any(|b| b == 0), "refused");
    };
    vp::check(s.bytes().any(|b| b == 0) || name.to_str() == Some(&s), "text");
    let f = Nlst::V10 { file_names: SsbhArray::from_vec(vec![name]) };
    let mut c = Cursor::new(Vec::new());
    vp::check(f.write(&mut c).is_ok(), "write");
    match Nlst::read(&mut Cursor::new(c.into_inner())) {
        Err(_) => vp::fail("read"),
        Ok(g) => {
            vp::check(f == g, "kept");
            vp::reach("survives");
        }
    }
}
#[derive(Serialize, Deserialize, PartialEq)]
struct Buffers {
    a: SsbhByteBuffer,
}
/// bytes as text
#[no_mangle]
pub extern "C" fn j_bytes() {
    let n = vp::param(0) as usize;
    // the last of them are fixed
    let mut b = vp::bytes(n);
    b.extend((0..vp::param(1)).map(|k| (k as u8).wrapping_mul(37)));
    let v = Buffers { a: SsbhByteBuffer { elements: b } };
    if let Some(w) = there(&v) {
        vp::check(vp::same(&v.a.elements, &w.a.elements), "equal");
        vp::reach("survives");
    }
}
#[derive(Serialize, Deserialize, PartialEq)]
struct Numbers {
    a: SsbhArray<u8>,
    b: SsbhArray<u16>,
    c: SsbhArray<i16>,
    d: SsbhArray<u32>,
    e: SsbhArray<u64>,
}
#[no_mangle]
pub extern "C" fn j_numbers() {
    let k = vp::param(0);
    let mut v = Numbers { a: Default::default(), b: Default::default(), c: Default::default(), d: Default::default(), e: Default::default() };
    match k {
        0 => v.a.elements.push(vp::u8()),
        1 => v.b.elements.push(vp::u16()),
        2 => v.c.elements.push(vp::i16()),
        3 => v.d.elements.push(vp::u32()),
        _ => v.e.elements.push(vp::u64()),
    }
    if let Some(w) = there(&v) {
        vp::check(v == w, "equal");
        vp::reach("survives");
    }
}
/// damaged text is an error
#[no_mangle]
pub extern "C" fn j_damaged() {
    let n = vp::param(1) as usize;
    if n > 2 {
        vp::stub_format();
    }
    let mut b = vp::bytes(n);
    let (head, tail): (&[u8], &[u8]) = match vp::param(0) {
        0 => (b"", b""),
        1 => (b"{\"a\":\"", b"\"}"),
        2 => (b"{\"a\":", b"}"),
        _ => (b"[", b""),
    };
    b.splice(0..0, head.iter().copied());
    b.extend(tail);
    let ok = match vp::param(2) {
        0 => serde_json::from_slice::<SsbhString>(&b).is_ok(),
        1 => serde_json::from_slice::<Buffers>(&b).is_ok(),
        2 => serde_json::from_slice::<SsbhArray<u8>>(&b).is_ok(),
        3 => serde_json::from_slice::<Adj>(&b).is_ok(),
        _ => serde_json::from_slice::<ssbh_data::matl_data::SamplerData>(&b).is_ok(),
    };
    vp::reach(if ok { "read" } else { "error" });
}
/// strings read from a binary file
#[no_mangle]
pub extern "C" fn j_raw() {
    let mut b = vp::bytes(vp::param(0) as usize);
    let text = std::str::from_utf8(&b).is_ok();
    vp::assume(text == (vp::param(1) == 0));
    b.push(0);
    let Ok(v) = binrw::BinRead::read_le(&mut Cursor::new(b)) else {
        return vp::fail("read");
    };
    let v: CString<4> = v;
    if let Some(w) = there(&v) {
        vp::check(v == w, if text { "equal" } else { "not-text" });
        vp::reach("survives");
    }
}

/// Files as they are read: one byte anywhere after the header differs from a file of each shape,
/// so that no field is left at what the types' own import fills in.
macro_rules! changed {
    ($skip:expr; $($name:ident $t:ty),* $(,)?) => { $(
        #[no_mangle]
        pub extern "C" fn $name() {
            let v: $t = gen().make();
            let mut c = Cursor::new(Vec::new());
            vp::check(v.write(&mut c).is_ok(), "write");
            let mut b = c.into_inner();
            let head = 20.min(b.len() / 4);
            let at = head + vp::choice((b.len() - head) as u64) as usize;
            b[at] = b[at].wrapping_add(vp::param(7) as u8);
            let Ok(v) = <$t>::read(&mut Cursor::new(b)) else {
                return vp::reach("refused");
            };
            let skip: fn(&$t) -> bool = $skip;
            if skip(&v) {
                return;
            }
            if let Some(w) = there(&v) {
                vp::check(v == w, "equal");
                vp::reach("survives");
            }
        }
    )* };
}
changed! { |_| false;
    c_skel Skel, c_hlpb Hlpb, c_nlst Nlst, c_nufx Nufx, c_shdr Shdr, c_matl Matl, c_mesh Mesh, c_anim Anim, c_nrpd Nrpd, c_adj Adj, c_meshex MeshEx,
}
changed! { nested; c_modl Modl }

/// the field to leave out, as number `k` of the tree, and what stands for it
fn without(v: &mut serde_json::Value, k: &mut usize, null: bool) -> Option<bool> {
    use serde_json::{json, Value};
    match v {
        Value::Array(a) => a.iter_mut().find_map(|v| without(v, k, null)),
        Value::Object(m) => {
            let keys: Vec<String> = m.keys().cloned().collect();
            let (sampler, blend) = (m.contains_key("wraps"), m.contains_key("source_color"));
            for key in keys {
                if *k == 0 && vp::param(2) == 3 {
                    let v = m.get_mut(&key).unwrap();
                    *v = wrong(v);
                    return Some(false);
                }
                if *k == 0 {
                    let default = match key.as_str() {
                        "animation_file_name" | "parent_index" => Some(Value::Null),
                        "max_anisotropy" => Some(json!("One")),
                        _ if null => None,
                        "uv_transforms" => Some(json!([])),
                        "wraps" | "wrapt" | "wrapr" if sampler => Some(json!("ClampToEdge")),
                        "min_filter" if sampler => Some(json!("LinearMipmapLinear")),
                        "mag_filter" if sampler => Some(json!("Linear")),
                        "border_color" if sampler => Some(json!({"r": 0.0, "g": 0.0, "b": 0.0, "a": 0.0})),
                        "lod_bias" if sampler => Some(json!(0.0)),
                        "source_color" | "source_alpha" if blend => Some(json!("One")),
                        "destination_color" | "destination_alpha" if blend => Some(json!("Zero")),
                        "color_operation" | "alpha_operation" if blend => Some(json!("Add")),
                        "alpha_sample_to_coverage" if blend => Some(json!(false)),
                        _ => None,
                    };
                    let taken = default.is_some();
                    // what is there instead is told by the caller's second walk
                    m.insert(key, default.unwrap_or(Value::Null));
                    return Some(taken);
                }
                *k -= 1;
                if let Some(r) = without(m.get_mut(&key).unwrap(), k, null) {
                    return Some(r);
                }
            }
            None
        }
        _ => None,
    }
}
/// of another type, or a name that stands for nothing
fn wrong(v: &serde_json::Value) -> serde_json::Value {
    use serde_json::{json, Value};
    match v {
        Value::Number(_) => json!(true),
        Value::Bool(_) => json!(1),
        Value::String(_) => json!("?!"),
        // (the fields within have their turn)
        v => v.clone(),
    }
}
fn cut(v: &mut serde_json::Value, k: &mut usize, null: bool) -> bool {
    use serde_json::Value;
    match v {
        Value::Array(a) => a.iter_mut().any(|v| cut(v, k, null)),
        Value::Object(m) => {
            let keys: Vec<String> = m.keys().cloned().collect();
            for key in keys {
                if *k == 0 {
                    if null {
                        m.insert(key, Value::Null);
                    } else if vp::param(2) == 3 {
                        let v = m.get_mut(&key).unwrap();
                        *v = wrong(v);
                    } else {
                        m.remove(&key);
                    }
                    return true;
                }
                *k -= 1;
                if cut(m.get_mut(&key).unwrap(), k, null) {
                    return true;
                }
            }
            false
        }
        _ => false,
    }
}
/// One field is missing (1), null (2) or something else (3) in the text.
fn partial<T: Serialize + DeserializeOwned>(v: &T) {
    let Ok(whole) = serde_json::to_value(v) else {
        return vp::fail("export");
    };
    let null = vp::param(2) == 2;
    let k = vp::choice(vp::param(3)) as usize;
    let (mut text, mut expected) = (whole.clone(), whole);
    let (mut i, mut j) = (k, k);
    if !cut(&mut text, &mut i, null) {
        return;
    }
    let taken = without(&mut expected, &mut j, null) == Some(true);
    // in the files' own types whatever may be absent is null
    let any = vp::param(4) == 1 || vp::param(2) == 3;
    let r = serde_json::from_str::<T>(&text.to_string());
    match r {
        Ok(w) => {
            vp::check(taken | any, "refused");
            vp::check(serde_json::to_value(&w).ok() == Some(expected), "default");
            vp::reach("default");
        }
        Err(_) => {
            vp::check(!taken | any, "optional");
            vp::reach("refused");
        }
    }
}
macro_rules! partials {
    ($($name:ident $t:ty),* $(,)?) => { $(
        /// [variant, 0, mode, fields, 1, inner variant, deviations]
        #[no_mangle]
        pub extern "C" fn $name() {
            let mut g = G::new();
            g.top = Some(vp::param(0) as u32);
            g.dev = vp::param(6);
            g.var = vp::param(5) as u32;
            g.len = 1;
            g.slen = 2;
            g.maxlen = 2;
            g.fixed = true;
            g.hex = true;
            let v: $t = g.make();
            partial(&v);
        }
    )* };
}
partials! {
    p_modl Modl, p_skel Skel, p_hlpb Hlpb, p_nlst Nlst, p_nufx Nufx, p_shdr Shdr, p_matl Matl, p_mesh Mesh, p_anim Anim, p_nrpd Nrpd, p_adj Adj, p_meshex MeshEx,
}
/// every field of every data type set
#[no_mangle]
pub extern "C" fn j_literal() {
    use ssbh_data::{adj_data::*, anim_data as an, hlpb_data::*, matl_data as ma, mesh_data as me, meshex_data as mx, modl_data::*, shdr_data as sh, skel_data as sk};
    let s = |k: u8| format!("n{k}");
    let v3 = |k: f32| ssbh_lib::Vector3::new(k, k + 0.5, -k);
    let v4 = |k: f32| ssbh_lib::Vector4::new(k, k + 0.5, -k, k + 0.25);
    let u = 77u64;
    let (major_version, minor_version) = (3 + u as u16, 5);
    macro_rules! same {
        ($t:ty, $v:expr) => {{
            let v: $t = $v;
            if vp::param(2) != 0 {
                partial(&v);
            } else if let Some(w) = there(&v) {
                vp::check(v == w, "equal");
                vp::reach("survives");
            }
        }};
    }
    match vp::param(0) {
        0 => same!(ModlData, ModlData {
            major_version, minor_version, model_name: s(1), skeleton_file_name: s(2), material_file_names: vec![s(3), s(4)], animation_file_name: Some(s(5)), mesh_file_name: s(6),
            entries: vec![ModlEntryData { mesh_object_name: s(7), mesh_object_subindex: u, material_label: s(8) }],
        }),
        1 => same!(sk::SkelData, sk::SkelData {
            major_version, minor_version,
            bones: vec![sk::BoneData { name: s(1), transform: [[1.0, 2.0, 3.0, 4.0], [5.0, 6.0, 7.0, 8.0], [9.0, 10.0, 11.0, 12.0], [13.0, 14.0, 15.0, 16.0]], parent_index: Some(u as usize), billboard_type: sk::BillboardType::YAxisViewPlaneAligned }],
        }),
        2 => same!(HlpbData, HlpbData {
            major_version, minor_version,
            aim_constraints: vec![AimConstraintData { name: s(1), aim_bone_name1: s(2), aim_bone_name2: s(3), aim_type1: s(4), aim_type2: s(5), target_bone_name1: s(6), target_bone_name2: s(7), unk1: u as u32, unk2: 9, aim: v3(1.0), up: v3(2.0), quat1: v4(3.0), quat2: v4(4.0) }],
            orient_constraints: vec![OrientConstraintData { name: s(11), parent_bone_name1: s(12), parent_bone_name2: s(13), source_bone_name: s(14), target_bone_name: s(15), unk_type: u as u32, constraint_axes: v3(5.0), quat1: v4(6.0), quat2: v4(7.0), range_min: v3(8.0), range_max: v3(9.0) }],
        }),
        3 => same!(ma::MatlData, ma::MatlData {
            major_version, minor_version,
            entries: vec![ma::MatlEntryData {
                material_label: s(1), shader_label: s(2),
                blend_states: vec![ma::BlendStateParam { param_id: ma::ParamId::BlendState0, data: ma::BlendStateData {
                    source_color: ma::BlendFactor::SourceAlpha, color_operation: ma::BlendOperation::Subtract, destination_color: ma::BlendFactor::DestinationColor,
                    source_alpha: ma::BlendFactor::DestinationAlpha, alpha_operation: ma::BlendOperation::Subtract, destination_alpha: ma::BlendFactor::OneMinusSourceAlpha, alpha_sample_to_coverage: true } }],
                floats: vec![ma::FloatParam { param_id: ma::ParamId::CustomFloat7, data: 1.25 }],
                booleans: vec![ma::BooleanParam { param_id: ma::ParamId::CustomBoolean3, data: true }],
                vectors: vec![ma::Vector4Param { param_id: ma::ParamId::CustomVector5, data: v4(2.0) }],
                rasterizer_states: vec![ma::RasterizerStateParam { param_id: ma::ParamId::RasterizerState0, data: ma::RasterizerStateData { fill_mode: ma::FillMode::Line, cull_mode: ma::CullMode::Front, depth_bias: 0.75 } }],
                samplers: vec![ma::SamplerParam { param_id: ma::ParamId::Sampler2, data: ma::SamplerData {
                    wraps: ma::WrapMode::ClampToEdge, wrapt: ma::WrapMode::MirroredRepeat, wrapr: ma::WrapMode::ClampToBorder, min_filter: ma::MinFilter::LinearMipmapLinear, mag_filter: ma::MagFilter::Linear2,
                    border_color: ssbh_lib::Color4f { r: 0.25, g: 0.5, b: 0.75, a: 0.125 }, lod_bias: -1.5, max_anisotropy: [ma::MaxAnisotropy::One, ma::MaxAnisotropy::Two, ma::MaxAnisotropy::Four, ma::MaxAnisotropy::Eight, ma::MaxAnisotropy::Sixteen][vp::param(1) as usize] } }],
                textures: vec![ma::TextureParam { param_id: ma::ParamId::Texture9, data: s(3) }],
                uv_transforms: vec![ma::UvTransformParam { param_id: ma::ParamId::UvTransform1, data: ma::UvTransform { scale_u: 1.5, scale_v: 2.5, rotation: 3.5, translate_u: 4.5, translate_v: 5.5 } }],
            }],
        }),
        4 => {
            let a = |k: u8| vec![me::AttributeData { name: s(k), data: me::VectorData::Vector3(vec![[k as f32, 0.5, -1.0]]) }, me::AttributeData { name: s(k + 1), data: me::VectorData::Vector2(vec![[0.5, k as f32]]) }, me::AttributeData { name: s(k + 2), data: me::VectorData::Vector4(vec![[0.5, 1.5, 2.5, k as f32]]) }];
            let v = me::MeshData { major_version, minor_version, objects: vec![me::MeshObjectData {
                name: s(1), subindex: u, parent_bone_name: s(2), sort_bias: -(u as i32), disable_depth_write: (vp::choice(2) == 1), disable_depth_test: (vp::choice(2) == 1), vertex_indices: vec![1, 2, u as u32],
                positions: a(10), normals: a(20), binormals: a(30), tangents: a(40), texture_coordinates: a(50), color_sets: a(60),
                bone_influences: vec![me::BoneInfluence { bone_name: s(3), vertex_weights: vec![me::VertexWeight { vertex_index: u as u32, vertex_weight: 0.625 }] }] }] };
            if vp::param(2) != 0 {
                partial(&v);
            } else if let Some(w) = there(&v) {
                vp::check(format!("{v:?}") == format!("{w:?}"), "equal");
                vp::reach("survives");
            }
        }
        5 => {
            use an::TrackValues::*;
            let t = |values: an::TrackValues| an::TrackData { name: s(3), compensate_scale: (vp::choice(2) == 1), transform_flags: an::TransformFlags { override_translation: true, override_rotation: true, override_scale: true, override_compensate_scale: true }, values };
            let uv = |k: f32| an::UvTransform { scale_u: k, scale_v: k + 1.0, rotation: k + 2.0, translate_u: k + 3.0, translate_v: k + 4.0 };
            let v = match vp::param(1) {
                0 => Transform(vec![an::Transform { scale: v3(1.0), rotation: v4(2.0), translation: v3(3.0) }, an::Transform { scale: v3(4.0), rotation: v4(5.0), translation: v3(6.0) }]),
                1 => UvTransform(vec![uv(1.0), uv(10.0)]),
                2 => Float(vec![1.5, -2.5]),
                3 => PatternIndex(vec![u as u32, 7]),
                4 => Boolean(vec![(vp::choice(2) == 1), true, false]),
                _ => Vector4(vec![v4(1.0), v4(2.0)]),
            };
            same!(an::AnimData, an::AnimData { major_version, minor_version, final_frame_index: 12.5, groups: vec![an::GroupData { group_type: an::GroupType::Camera, nodes: vec![an::NodeData { name: s(2), tracks: vec![t(v)] }] }] })
        }
        6 => same!(AdjData, AdjData { entries: vec![AdjEntryData { mesh_object_index: u as usize, vertex_adjacency: vec![-1, 5, u as i16] }] }),
        7 => same!(mx::MeshExData, mx::MeshExData { mesh_object_groups: vec![mx::MeshObjectGroupData {
            bounding_sphere: mx::BoundingSphere { center: v3(1.0), radius: 2.5 }, mesh_object_full_name: s(1), mesh_object_name: s(2),
            entry_flags: vec![mx::EntryFlags { draw_model: (vp::choice(2) == 1), cast_shadow: (vp::choice(2) == 1) }, mx::EntryFlags { draw_model: true, cast_shadow: true }] }] }),
        _ => {
            let (t, k) = (sh::DataType::SamplerCube, |i: i32| i + u as i32);
            let v = sh::ShdrData { shaders: vec![sh::ShaderEntryData { name: s(1), shader_stage: ssbh_lib::formats::shdr::ShaderStage::Geometry, meta_data: sh::MetaData {
                buffers: vec![sh::Buffer { name: s(2), used_size_in_bytes: u as u32, uniform_count: 3, unk4: k(1), unk5: k(2), unk6: k(3), unk7: k(4) }],
                uniforms: vec![sh::Uniform { name: s(3), data_type: t, buffer_index: k(5), uniform_buffer_offset: k(6), unk11: k(7) }],
                inputs: vec![sh::Attribute { name: s(4), data_type: t, location: k(8) }],
                outputs: vec![sh::Attribute { name: s(5), data_type: sh::DataType::Vector2, location: k(9) }] } }] };
            if vp::param(2) != 0 {
                partial(&v);
            } else if let Some(w) = there(&v) {
                vp::check(format!("{v:?}") == format!("{w:?}"), "equal");
                vp::reach("survives");
            }
        }
    }
}
