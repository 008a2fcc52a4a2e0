//! F07: the byte layout of every format, written down field by field. The order, width and
//! padding of the fields, the tags of the variants and the numbers of the enumerations are stated
//! here, not taken from the types, so that files written elsewhere keep their meaning.
use crate::{
    model::{layout, N},
    vp,
};
use serde::ser::{self, Serialize, Serializer};
use ssbh_lib::prelude::*;
use ssbh_lib::{CString, Color4f, Matrix3x3, Matrix4x4, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhEnum64, SsbhString, SsbhString8, Vector3, Vector4};
use std::io::Cursor;

/// the layout of a value, and the alignment of data of its type
pub trait L {
    const ALIGN: u64 = 8;
    fn n(&self) -> N;
}
macro_rules! prim {
    ($($t:ty),*) => { $(impl L for $t {
        const ALIGN: u64 = std::mem::size_of::<$t>() as u64;
        fn n(&self) -> N {
            N::Raw(self.to_le_bytes().to_vec())
        }
    })* };
}
prim!(u8, u16, u32, u64, i16, i32);
impl L for f32 {
    const ALIGN: u64 = 4;
    fn n(&self) -> N {
        self.to_bits().n()
    }
}
impl L for () {
    const ALIGN: u64 = 1;
    fn n(&self) -> N {
        N::Rec(vec![], 0)
    }
}
impl<T: L, const K: usize> L for [T; K] {
    const ALIGN: u64 = T::ALIGN;
    fn n(&self) -> N {
        N::Rec(self.iter().map(|x| x.n()).collect(), 0)
    }
}
impl<T: L> L for SsbhArray<T> {
    fn n(&self) -> N {
        N::Arr(self.elements.iter().map(|x| x.n()).collect())
    }
}
impl L for SsbhByteBuffer {
    fn n(&self) -> N {
        N::Buf(self.elements.clone())
    }
}
impl<T: L> L for RelPtr64<T> {
    fn n(&self) -> N {
        N::Rel(T::ALIGN, self.as_ref().map(|x| Box::new(x.n())))
    }
}
impl<T: L> L for ssbh_lib::Ptr64<T> {
    fn n(&self) -> N {
        N::Abs(8, T::ALIGN, self.as_ref().map(|x| Box::new(x.n())))
    }
}
/// contents and a NUL; nothing at all takes one unit
fn text(b: &[u8], unit: usize) -> N {
    N::Raw(if b.is_empty() { vec![0; unit] } else { [b, &[0]].concat() })
}
impl<const K: usize> L for CString<K> {
    const ALIGN: u64 = K as u64;
    fn n(&self) -> N {
        text(self.to_str().unwrap_or("?").as_bytes(), K)
    }
}
impl L for SsbhString {
    fn n(&self) -> N {
        N::Rel(4, self.to_str().map(|t| Box::new(text(t.as_bytes(), 4))))
    }
}
impl L for SsbhString8 {
    fn n(&self) -> N {
        N::Rel(8, self.to_str().map(|t| Box::new(text(t.as_bytes(), 8))))
    }
}
/// fields in order, then zero bytes
macro_rules! rec {
    (@ $t:ty, $a:expr, $p:expr, $($f:ident),*) => {
        impl L for $t {
            const ALIGN: u64 = $a;
            fn n(&self) -> N {
                N::Rec(vec![$(self.$f.n()),*], $p)
            }
        }
    };
    ($t:ty => $($f:tt)*) => { rec!(@ $t, 8, 0, $($f)*); };
}
macro_rules! tags {
    ($t:ident $w:ident: $($v:ident = $k:literal),* $(,)?) => {
        impl L for $t {
            const ALIGN: u64 = std::mem::size_of::<$w>() as u64;
            fn n(&self) -> N {
                let k: $w = match self {
                    $($t::$v => $k),*
                };
                k.n()
            }
        }
    };
}
/// out-of-line contents with their tag
macro_rules! tagged {
    ($t:ident: $($v:ident = $k:literal),* $(,)?) => {
        impl L for SsbhEnum64<$t> {
            fn n(&self) -> N {
                let (k, x) = match self.data.as_ref() {
                    None => return N::Tag(8, None, 0),
                    $(Some($t::$v(x)) => ($k, x.n())),*
                };
                N::Tag(8, Some(Box::new(N::Rec(vec![x], 0))), k)
            }
        }
    };
}
rec!(@ Vector3, 4, 0, x, y, z);
rec!(@ Vector4, 4, 0, x, y, z, w);
rec!(@ Color4f, 4, 0, r, g, b, a);
rec!(@ Matrix3x3, 4, 0, col1, col2, col3);
rec!(@ Matrix4x4, 4, 0, col1, col2, col3, col4);

/// A whole file: the container's magic, 64, 0, the type's magic, the version, then the contents.
fn file(magic: &[u8; 4], version: (u16, u16), n: N) -> Vec<u8> {
    let (mut b, _) = layout(24, 24 + n.size(), &n);
    b[..4].copy_from_slice(b"HBSS");
    b[4..12].copy_from_slice(&64u64.to_le_bytes());
    b[16 - 4..16].copy_from_slice(&[0; 4]);
    b[16..20].copy_from_slice(magic);
    b[20..22].copy_from_slice(&version.0.to_le_bytes());
    b[22..24].copy_from_slice(&version.1.to_le_bytes());
    b
}
fn aligned(mut b: Vec<u8>, unit: usize) -> Vec<u8> {
    while b.len() % unit != 0 {
        b.push(0);
    }
    b
}
macro_rules! agrees {
    ($name:ident, $t:ty, $file:expr) => {
        #[no_mangle]
        pub extern "C" fn $name() {
            let mut g = crate::fmt::gen();
            let nan = g.nan;
            let v: $t = g.make();
            let f: fn(&$t) -> Vec<u8> = $file;
            let mut c = Cursor::new(Vec::new());
            if v.write(&mut c).is_err() {
                // refused: only a mesh extension may be (F06)
                return vp::check(stringify!($t) == "MeshEx", "write");
            }
            let b = f(&v);
            vp::log_bytes(&b);
            // (an empty buffer at the end of a file may be followed by its alignment)
            let w = c.get_ref();
            let more = w.len().wrapping_sub(b.len());
            vp::check(more < 8 && vp::same(&b, &w[..b.len()]) && w[b.len()..].iter().all(|x| *x == 0), "written");
            match <$t>::read(&mut Cursor::new(&b[..])) {
                Err(_) => vp::fail("read"),
                Ok(w) => {
                    if !nan {
                        vp::check(v == w, "read");
                    }
                    vp::reach("bytes");
                }
            }
        }
    };
}

// ---- model ----
mod modl {
    use super::*;
    use ssbh_lib::formats::modl::*;
    rec!(ModlEntry => mesh_object_name, mesh_object_subindex, material_label);
    agrees!(y_modl, Modl, |v| {
        let Modl::V17 { model_name, skeleton_file_name, material_file_names, animation_file_name, mesh_file_name, entries } = v;
        file(b"LDOM", (1, 7), N::Rec(vec![model_name.n(), skeleton_file_name.n(), material_file_names.n(), animation_file_name.n(), mesh_file_name.n(), entries.n()], 0))
    });
}

// ---- skeleton ----
mod skel {
    use super::*;
    use ssbh_lib::formats::skel::*;
    rec!(SkelBoneEntry => name, index, parent_index, flags);
    rec!(@ SkelEntryFlags, 1, 2, unk1, billboard_type);
    tags!(BillboardType u8: Disabled = 0, XAxisViewPointAligned = 1, YAxisViewPointAligned = 2, Unk3 = 3, XYAxisViewPointAligned = 4, YAxisViewPlaneAligned = 6, XYAxisViewPlaneAligned = 8);
    agrees!(y_skel, Skel, |v| {
        let Skel::V10 { bone_entries, world_transforms, inv_world_transforms, transforms, inv_transforms } = v;
        file(b"LEKS", (1, 0), N::Rec(vec![bone_entries.n(), world_transforms.n(), inv_world_transforms.n(), transforms.n(), inv_transforms.n()], 0))
    });
}

// ---- helper bones ----
mod hlpb {
    use super::*;
    use ssbh_lib::formats::hlpb::*;
    rec!(AimConstraint => name, aim_bone_name1, aim_bone_name2, aim_type1, aim_type2, target_bone_name1, target_bone_name2, unk1, unk2, aim, up, quat1, quat2, unk17, unk18, unk19, unk20, unk21, unk22);
    rec!(OrientConstraint => name, parent_bone_name1, parent_bone_name2, source_bone_name, target_bone_name, unk_type, constraint_axes, quat1, quat2, range_min, range_max);
    tags!(ConstraintType u32: Aim = 0, Orient = 1);
    agrees!(y_hlpb, Hlpb, |v| {
        let Hlpb::V11 { aim_constraints, orient_constraints, constraint_indices, constraint_types } = v;
        file(b"BPLH", (1, 1), N::Rec(vec![aim_constraints.n(), orient_constraints.n(), constraint_indices.n(), constraint_types.n()], 0))
    });
}

// ---- name lists ----
mod nlst {
    use super::*;
    use ssbh_lib::formats::nlst::*;
    agrees!(y_nlst, Nlst, |v| {
        let Nlst::V10 { file_names } = v;
        file(b"TSLN", (1, 0), N::Rec(vec![file_names.n()], 0))
    });
}

// ---- shader effects ----
mod nufx {
    use super::*;
    use ssbh_lib::formats::nufx::*;
    rec!(VertexAttribute => name, attribute_name);
    rec!(@ MaterialParameter, 8, 8, param_id, parameter_name);
    rec!(ShaderStages => vertex_shader, unk_shader1, unk_shader2, geometry_shader, pixel_shader, compute_shader);
    rec!(ShaderProgramV0 => name, render_pass, shaders, material_parameters);
    rec!(ShaderProgramV1 => name, render_pass, shaders, vertex_attributes, material_parameters);
    rec!(UnkItem => name, unk1);
    agrees!(y_nufx, Nufx, |v| match v {
        Nufx::V0(x) => file(b"XFUN", (1, 0), N::Rec(vec![x.programs.n(), x.unk_string_list.n()], 0)),
        Nufx::V1(x) => file(b"XFUN", (1, 1), N::Rec(vec![x.programs.n(), x.unk_string_list.n()], 0)),
    });
}

// ---- shaders ----
mod shdr {
    use super::*;
    use ssbh_lib::formats::shdr::*;
    rec!(@ Shader, 8, 16, name, shader_stage, unk3, shader_binary, binary_size);
    tags!(ShaderStage u32: Vertex = 0, Geometry = 3, Fragment = 4, Compute = 5);
    agrees!(y_shdr, Shdr, |v| {
        let Shdr::V12 { shaders } = v;
        file(b"RDHS", (1, 2), N::Rec(vec![shaders.n()], 0))
    });
}

// ---- materials ----
mod matl {
    use super::*;
    use ssbh_lib::formats::matl::*;
    rec!(MatlEntryV15 => material_label, attributes, shader_label);
    rec!(MatlEntryV16 => material_label, attributes, shader_label);
    rec!(AttributeV15 => param_id, param);
    rec!(AttributeV16 => param_id, param);
    tagged!(ParamV15: Float = 1, Boolean = 2, Vector4 = 5, Unk7 = 7, String = 11, Sampler = 14, UvTransform = 16, BlendState = 17, RasterizerState = 18);
    tagged!(ParamV16: Float = 1, Boolean = 2, Vector4 = 5, Unk7 = 7, String = 11, Sampler = 14, UvTransform = 16, BlendState = 17, RasterizerState = 18);
    rec!(RasterizerStateV15 => cull_mode);
    rec!(@ RasterizerStateV16, 4, 4, fill_mode, cull_mode, depth_bias, unk4, unk5, unk6);
    rec!(Sampler => wraps, wrapt, wrapr, min_filter, mag_filter, texture_filtering_type, border_color, unk11, unk12, lod_bias, max_anisotropy);
    rec!(UvTransform => scale_u, scale_v, rotation, translate_u, translate_v);
    rec!(BlendStateV15 => source_color, color_operation, destination_color, source_alpha, alpha_operation, destination_alpha, unk6, unk7, unk8, unk9);
    rec!(@ BlendStateV16, 4, 8, source_color, color_operation, destination_color, source_alpha, alpha_operation, destination_alpha, alpha_sample_to_coverage, unk8, unk9, unk10);
    tags!(FillMode u32: Line = 0, Solid = 1);
    tags!(CullMode u32: Back = 0, Front = 1, Disabled = 2);
    tags!(WrapMode u32: Repeat = 0, ClampToEdge = 1, MirroredRepeat = 2, ClampToBorder = 3);
    tags!(MinFilter u32: Nearest = 0, LinearMipmapLinear = 1, LinearMipmapLinear2 = 2);
    tags!(MagFilter u32: Nearest = 0, Linear = 1, Linear2 = 2);
    tags!(FilteringType u32: Default = 0, Default2 = 1, AnisotropicFiltering = 2);
    tags!(MaxAnisotropy u32: One = 1, Two = 2, Four = 4, Eight = 8, Sixteen = 16);
    tags!(BlendFactor u32: Zero = 0, One = 1, SourceAlpha = 2, DestinationAlpha = 3, SourceColor = 4, DestinationColor = 5, OneMinusSourceAlpha = 6, OneMinusDestinationAlpha = 7,
        OneMinusSourceColor = 8, OneMinusDestinationColor = 9, SourceAlphaSaturate = 10);
    tags!(BlendOperation u32: Add = 0, Subtract = 1, ReverseSubtract = 2, Minimum = 3, Maximum = 4);
    tags!(ParamId u64: BlendState0 = 280, RasterizerState0 = 291, CustomVector8 = 160, Texture4 = 96, CustomVector0 = 152, CustomBoolean1 = 233, CustomVector13 = 165, CustomBoolean3 = 235,
        CustomBoolean4 = 236, Texture7 = 99, CustomVector14 = 166, CustomFloat8 = 200, Texture0 = 92, Texture6 = 98, CustomVector3 = 155, Texture5 = 97, CustomVector30 = 325, CustomBoolean2 =
        234, CustomVector31 = 326, CustomBoolean11 = 243, Texture14 = 106, CustomVector27 = 322, Texture9 = 101, CustomVector29 = 324, CustomVector6 = 158, CustomVector11 = 163, CustomBoolean5 =
        237, CustomBoolean12 = 244, CustomBoolean6 = 238, Texture2 = 94, Texture1 = 93, CustomVector7 = 159, CustomFloat1 = 193, Texture3 = 95, CustomFloat19 = 211, CustomVector18 = 170,
        CustomBoolean9 = 241, CustomVector42 = 337, CustomVector32 = 327, CustomBoolean7 = 239, CustomFloat4 = 196, CustomFloat10 = 202, Texture11 = 103, Texture16 = 307, CustomVector47 = 342,
        Texture10 = 102, CustomVector34 = 329, CustomFloat11 = 203, CustomFloat12 = 204, CustomVector35 = 330, CustomFloat6 = 198, CustomFloat18 = 210, CustomVector37 = 332, CustomVector38 =
        333, CustomVector39 = 334, CustomVector19 = 171, CustomVector23 = 318, Texture13 = 105, CustomVector21 = 316, CustomBoolean0 = 232, CustomVector20 = 315, CustomBoolean10 = 242,
        CustomVector40 = 335, Texture12 = 104, CustomVector22 = 317, Texture8 = 100, CustomVector46 = 341, CustomFloat17 = 209, CustomVector24 = 319, CustomBoolean8 = 240, CustomVector33 = 328,
        CustomVector4 = 156, CustomFloat0 = 192, CustomVector1 = 153, CustomVector2 = 154, CustomVector5 = 157, CustomVector15 = 167, CustomVector16 = 168, CustomVector43 = 338, CustomVector44 =
        339, CustomVector45 = 340, CustomVector9 = 161, CustomVector10 = 162, Diffuse = 0, Specular = 1, Ambient = 2, BlendMap = 3, Transparency = 4, DiffuseMapLayer1 = 5, CosinePower = 6,
        SpecularPower = 7, Fresnel = 8, Roughness = 9, EmissiveScale = 10, EnableDiffuse = 11, EnableSpecular = 12, EnableAmbient = 13, DiffuseMapLayer2 = 14, EnableTransparency = 15,
        EnableOpacity = 16, EnableCosinePower = 17, EnableSpecularPower = 18, EnableFresnel = 19, EnableRoughness = 20, EnableEmissiveScale = 21, WorldMatrix = 22, ViewMatrix = 23,
        ProjectionMatrix = 24, WorldViewMatrix = 25, ViewInverseMatrix = 26, ViewProjectionMatrix = 27, WorldViewProjectionMatrix = 28, WorldInverseTransposeMatrix = 29, DiffuseMap = 30,
        SpecularMap = 31, AmbientMap = 32, EmissiveMap = 33, SpecularMapLayer1 = 34, TransparencyMap = 35, NormalMap = 36, DiffuseCubeMap = 37, ReflectionMap = 38, ReflectionCubeMap = 39,
        RefractionMap = 40, AmbientOcclusionMap = 41, LightMap = 42, AnisotropicMap = 43, RoughnessMap = 44, ReflectionMask = 45, OpacityMask = 46, UseDiffuseMap = 47, UseSpecularMap = 48,
        UseAmbientMap = 49, UseEmissiveMap = 50, UseTranslucencyMap = 51, UseTransparencyMap = 52, UseNormalMap = 53, UseDiffuseCubeMap = 54, UseReflectionMap = 55, UseReflectionCubeMap = 56,
        UseRefractionMap = 57, UseAmbientOcclusionMap = 58, UseLightMap = 59, UseAnisotropicMap = 60, UseRoughnessMap = 61, UseReflectionMask = 62, UseOpacityMask = 63, DiffuseSampler = 64,
        SpecularSampler = 65, NormalSampler = 66, ReflectionSampler = 67, SpecularMapLayer2 = 68, NormalMapLayer1 = 69, NormalMapBc5 = 70, NormalMapLayer2 = 71, RoughnessMapLayer1 = 72,
        RoughnessMapLayer2 = 73, UseDiffuseUvTransform1 = 74, UseDiffuseUvTransform2 = 75, UseSpecularUvTransform1 = 76, UseSpecularUvTransform2 = 77, UseNormalUvTransform1 = 78,
        UseNormalUvTransform2 = 79, ShadowDepthBias = 80, ShadowMap0 = 81, ShadowMap1 = 82, ShadowMap2 = 83, ShadowMap3 = 84, ShadowMap4 = 85, ShadowMap5 = 86, ShadowMap6 = 87, ShadowMap7 = 88,
        CastShadow = 89, ReceiveShadow = 90, ShadowMapSampler = 91, Texture15 = 107, Sampler0 = 108, Sampler1 = 109, Sampler2 = 110, Sampler3 = 111, Sampler4 = 112, Sampler5 = 113, Sampler6 =
        114, Sampler7 = 115, Sampler8 = 116, Sampler9 = 117, Sampler10 = 118, Sampler11 = 119, Sampler12 = 120, Sampler13 = 121, Sampler14 = 122, Sampler15 = 123, CustomBuffer0 = 124,
        CustomBuffer1 = 125, CustomBuffer2 = 126, CustomBuffer3 = 127, CustomBuffer4 = 128, CustomBuffer5 = 129, CustomBuffer6 = 130, CustomBuffer7 = 131, CustomMatrix0 = 132, CustomMatrix1 =
        133, CustomMatrix2 = 134, CustomMatrix3 = 135, CustomMatrix4 = 136, CustomMatrix5 = 137, CustomMatrix6 = 138, CustomMatrix7 = 139, CustomMatrix8 = 140, CustomMatrix9 = 141,
        CustomMatrix10 = 142, CustomMatrix11 = 143, CustomMatrix12 = 144, CustomMatrix13 = 145, CustomMatrix14 = 146, CustomMatrix15 = 147, CustomMatrix16 = 148, CustomMatrix17 = 149,
        CustomMatrix18 = 150, CustomMatrix19 = 151, CustomVector12 = 164, CustomVector17 = 169, CustomColor0 = 172, CustomColor1 = 173, CustomColor2 = 174, CustomColor3 = 175, CustomColor4 =
        176, CustomColor5 = 177, CustomColor6 = 178, CustomColor7 = 179, CustomColor8 = 180, CustomColor9 = 181, CustomColor10 = 182, CustomColor11 = 183, CustomColor12 = 184, CustomColor13 =
        185, CustomColor14 = 186, CustomColor15 = 187, CustomColor16 = 188, CustomColor17 = 189, CustomColor18 = 190, CustomColor19 = 191, CustomFloat2 = 194, CustomFloat3 = 195, CustomFloat5 =
        197, CustomFloat7 = 199, CustomFloat9 = 201, CustomFloat13 = 205, CustomFloat14 = 206, CustomFloat15 = 207, CustomFloat16 = 208, CustomInteger0 = 212, CustomInteger1 = 213,
        CustomInteger2 = 214, CustomInteger3 = 215, CustomInteger4 = 216, CustomInteger5 = 217, CustomInteger6 = 218, CustomInteger7 = 219, CustomInteger8 = 220, CustomInteger9 = 221,
        CustomInteger10 = 222, CustomInteger11 = 223, CustomInteger12 = 224, CustomInteger13 = 225, CustomInteger14 = 226, CustomInteger15 = 227, CustomInteger16 = 228, CustomInteger17 = 229,
        CustomInteger18 = 230, CustomInteger19 = 231, CustomBoolean13 = 245, CustomBoolean14 = 246, CustomBoolean15 = 247, CustomBoolean16 = 248, CustomBoolean17 = 249, CustomBoolean18 = 250,
        CustomBoolean19 = 251, UvTransform0 = 252, UvTransform1 = 253, UvTransform2 = 254, UvTransform3 = 255, UvTransform4 = 256, UvTransform5 = 257, UvTransform6 = 258, UvTransform7 = 259,
        UvTransform8 = 260, UvTransform9 = 261, UvTransform10 = 262, UvTransform11 = 263, UvTransform12 = 264, UvTransform13 = 265, UvTransform14 = 266, UvTransform15 = 267, DiffuseUvTransform1
        = 268, DiffuseUvTransform2 = 269, SpecularUvTransform1 = 270, SpecularUvTransform2 = 271, NormalUvTransform1 = 272, NormalUvTransform2 = 273, DiffuseUvTransform = 274,
        SpecularUvTransform = 275, NormalUvTransform = 276, UseDiffuseUvTransform = 277, UseSpecularUvTransform = 278, UseNormalUvTransform = 279, BlendState1 = 281, BlendState2 = 282,
        BlendState3 = 283, BlendState4 = 284, BlendState5 = 285, BlendState6 = 286, BlendState7 = 287, BlendState8 = 288, BlendState9 = 289, BlendState10 = 290, RasterizerState1 = 292,
        RasterizerState2 = 293, RasterizerState3 = 294, RasterizerState4 = 295, RasterizerState5 = 296, RasterizerState6 = 297, RasterizerState7 = 298, RasterizerState8 = 299, RasterizerState9 =
        300, RasterizerState10 = 301, ShadowColor = 302, EmissiveMapLayer1 = 303, EmissiveMapLayer2 = 304, AlphaTestFunc = 305, AlphaTestRef = 306, Texture17 = 308, Texture18 = 309, Texture19 =
        310, Sampler16 = 311, Sampler17 = 312, Sampler18 = 313, Sampler19 = 314, CustomVector25 = 320, CustomVector26 = 321, CustomVector28 = 323, CustomVector36 = 331, CustomVector41 = 336,
        CustomVector48 = 343, CustomVector49 = 344, CustomVector50 = 345, CustomVector51 = 346, CustomVector52 = 347, CustomVector53 = 348, CustomVector54 = 349, CustomVector55 = 350,
        CustomVector56 = 351, CustomVector57 = 352, CustomVector58 = 353, CustomVector59 = 354, CustomVector60 = 355, CustomVector61 = 356, CustomVector62 = 357, CustomVector63 = 358,
        UseBaseColorMap = 359, UseMetallicMap = 360, BaseColorMap = 361, BaseColorMapLayer1 = 362, MetallicMap = 363, MetallicMapLayer1 = 364, DiffuseLightingAoOffset = 365);
    agrees!(y_matl, Matl, |v| match v {
        Matl::V15 { entries } => file(b"LTAM", (1, 5), N::Rec(vec![entries.n()], 0)),
        Matl::V16 { entries } => file(b"LTAM", (1, 6), N::Rec(vec![entries.n()], 0)),
    });
}

// ---- meshes ----
mod mesh {
    use super::*;
    use ssbh_lib::formats::mesh::*;
    rec!(AttributeV8 => usage, data_type, buffer_index, buffer_offset, subindex);
    rec!(AttributeV9 => usage, data_type, buffer_index, buffer_offset, subindex, name, attribute_names);
    rec!(AttributeV10 => usage, data_type, buffer_index, buffer_offset, subindex, name, attribute_names);
    rec!(BoundingInfo => bounding_sphere, bounding_volume, oriented_bounding_box);
    rec!(BoundingSphere => center, radius);
    rec!(BoundingVolume => min, max);
    rec!(OrientedBoundingBox => center, transform, size);
    rec!(@ RiggingFlags, 1, 6, max_influences, unk1);
    rec!(VertexWeightV8 => vertex_index, vertex_weight);
    rec!(@ DepthFlags, 1, 2, disable_depth_write, disable_depth_test);
    impl<W: L + for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite> L for BoneBuffer<W> {
        fn n(&self) -> N {
            N::Rec(vec![self.bone_name.n(), self.data.n()], 0)
        }
    }
    impl<W: L + for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite> L for RiggingGroup<W> {
        fn n(&self) -> N {
            N::Rec(vec![self.mesh_object_name.n(), self.mesh_object_subindex.n(), self.flags.n(), self.buffers.n()], 0)
        }
    }
    impl<A: L + for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite> L for MeshObject<A> {
        fn n(&self) -> N {
            let o = self;
            let mut f = vec![o.name.n(), o.subindex.n(), o.parent_bone_name.n(), o.vertex_count.n(), o.vertex_index_count.n(), o.unk2.n()];
            f.extend([o.vertex_buffer0_offset, o.vertex_buffer1_offset, o.vertex_buffer2_offset, o.vertex_buffer3_offset].map(|x| x.n()));
            f.extend([o.stride0, o.stride1, o.stride2, o.stride3, o.index_buffer_offset, o.unk8].map(|x| x.n()));
            f.extend([o.draw_element_type.n(), o.use_vertex_skinning.n(), o.sort_bias.n(), o.depth_flags.n(), o.bounding_info.n(), o.attributes.n()]);
            N::Rec(f, 0)
        }
    }
    fn mesh<A, W>(version: u16, m: &MeshInner<A, W>) -> Vec<u8>
    where
        A: L + for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite,
        W: L + for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite,
    {
        let f = vec![
            m.model_name.n(), m.bounding_info.n(), m.unk1.n(), m.objects.n(), m.buffer_sizes.n(), m.polygon_index_size.n(), m.vertex_buffers.n(), m.index_buffer.n(), m.rigging_buffers.n(),
        ];
        aligned(file(b"HSEM", (1, version), N::Rec(vec![N::Rec(f, 0)], 16)), 8)
    }
    tags!(DrawElementType u32: UnsignedShort = 0, UnsignedInt = 1);
    tags!(AttributeDataTypeV10 u32: Float3 = 0, Byte4 = 2, Float4 = 4, HalfFloat4 = 5, Float2 = 7, HalfFloat2 = 8);
    tags!(AttributeDataTypeV8 u32: Float3 = 820, Float4 = 1076, HalfFloat4 = 1077, Float2 = 1079, Byte4 = 1024);
    tags!(AttributeUsageV9 u32: Position = 0, Normal = 1, Binormal = 2, Tangent = 3, TextureCoordinate = 4, ColorSet = 5);
    tags!(AttributeUsageV8 u32: Position = 0, Normal = 1, Tangent = 3, TextureCoordinate = 4, ColorSet = 8);
    agrees!(y_mesh, Mesh, |v| match v {
        Mesh::V8(m) => mesh(8, m),
        Mesh::V9(m) => mesh(9, m),
        Mesh::V10(m) => mesh(10, m),
    });
}

// ---- animations ----
mod anim {
    use super::*;
    use ssbh_lib::formats::anim::*;
    rec!(Group => group_type, nodes);
    rec!(Node => name, tracks);
    rec!(TrackV2 => name, flags, frame_count, transform_flags, data_offset, data_size);
    rec!(@ TrackFlags, 1, 2, track_type, compression_type);
    impl L for TransformFlags {
        fn n(&self) -> N {
            let bits = [self.override_translation(), self.override_rotation(), self.override_scale(), self.override_compensate_scale()];
            let named = bits.iter().enumerate().map(|(i, b)| (*b as u32) << i).sum::<u32>();
            let all = u32::from_le_bytes(self.into_bytes());
            vp::check(all & 0xf == named, "transform-flags");
            all.n()
        }
    }
    rec!(TrackV1 => name, track_type, properties);
    rec!(Property => name, buffer_index);
    rec!(UnkData => unk1, unk2);
    rec!(UnkItem1 => unk1, unk2);
    rec!(UnkItem2 => unk1, unk2);
    rec!(UnkSubItem => unk1, unk2);
    tags!(TrackTypeV1 u64: Transform = 0, UvTransform = 2, Visibility = 5);
    tags!(TrackTypeV2 u8: Transform = 1, UvTransform = 2, Float = 3, PatternIndex = 5, Boolean = 8, Vector4 = 9);
    tags!(CompressionType u8: Direct = 1, ConstTransform = 2, Compressed = 4, Constant = 5);
    tags!(GroupType u64: Transform = 1, Visibility = 2, Material = 4, Camera = 5);
    agrees!(y_anim, Anim, |v| match v {
        Anim::V12 { name, unk1, final_frame_index, unk2, unk3, tracks, buffers } =>
            file(b"MINA", (1, 2), N::Rec(vec![name.n(), unk1.n(), final_frame_index.n(), unk2.n(), unk3.n(), tracks.n(), buffers.n()], 0)),
        Anim::V20 { final_frame_index, unk1, unk2, name, groups, buffer } =>
            file(b"MINA", (2, 0), N::Rec(vec![final_frame_index.n(), unk1.n(), unk2.n(), name.n(), groups.n(), buffer.n()], 0)),
        Anim::V21 { final_frame_index, unk1, unk2, name, groups, buffer, unk_data } =>
            aligned(file(b"MINA", (2, 1), N::Rec(vec![final_frame_index.n(), unk1.n(), unk2.n(), name.n(), groups.n(), buffer.n(), unk_data.n()], 0)), 8),
    });
}

// ---- adjacency ----
mod adj {
    use super::*;
    use ssbh_lib::formats::adj::*;
    agrees!(y_adj, Adj, |v| {
        let mut b = (v.entries.len() as u32).to_le_bytes().to_vec();
        for e in &v.entries {
            b.extend(e.mesh_object_index.to_le_bytes());
            b.extend(e.index_buffer_offset.to_le_bytes());
        }
        for i in &v.index_buffer {
            b.extend(i.to_le_bytes());
        }
        b
    });
}

// ---- mesh extensions ----
mod meshex {
    use super::*;
    use ssbh_lib::formats::meshex::*;
    rec!(@ MeshEntry, 16, 0, mesh_object_group_index, unk1);
    rec!(@ AllData, 16, 0, bounding_sphere, name);
    rec!(@ MeshObjectGroup, 16, 0, bounding_sphere, mesh_object_full_name, mesh_object_name);
    impl L for EntryFlag {
        const ALIGN: u64 = 2;
        fn n(&self) -> N {
            let bits = [(0, self.draw_model()), (1, self.cast_shadow()), (3, self.unk3()), (4, self.unk4()), (5, self.unk5())];
            let named = bits.iter().map(|(i, b)| (*b as u16) << i).sum::<u16>();
            let all = u16::from_le_bytes(self.into_bytes());
            vp::check(all & 0x3b == named, "entry-flags");
            all.n()
        }
    }
    impl L for EntryFlags {
        const ALIGN: u64 = 16;
        fn n(&self) -> N {
            self.0.n()
        }
    }
    impl<T: L> L for Vec<T> {
        const ALIGN: u64 = T::ALIGN;
        fn n(&self) -> N {
            N::Rec(self.iter().map(|x| x.n()).collect(), 0)
        }
    }
    agrees!(y_meshex, MeshEx, |v| {
        let entries = v.entries.as_ref().map_or(0, |x| x.len()) as u32;
        let groups = v.mesh_object_groups.as_ref().map_or(0, |x| x.len()) as u32;
        let f = vec![0u64.n(), entries.n(), groups.n(), v.all_data.n(), v.mesh_object_groups.n(), v.entries.n(), v.entry_flags.n(), v.unk1.n()];
        let (b, _) = layout(0, 64, &N::Rec(f, 12));
        let mut b = aligned(b, 16);
        let n = b.len() as u64;
        b[..8].copy_from_slice(&n.to_le_bytes());
        b
    });
}

// ---- types without public fields: their fields by name, through serde ----
enum T {
    Leaf(N, u64),
    Struct(&'static str, Vec<(&'static str, T)>),
}
impl T {
    /// fields of nested structures, in the format's order
    fn n(self) -> (N, u64) {
        match self {
            T::Leaf(n, a) => (n, a),
            T::Struct("Unk8Data", f) => (pick(f, &["unk1", "unk2"]), 4),
            T::Struct("Color4f", f) => (pick(f, &["r", "g", "b", "a"]), 4),
            T::Struct(..) => {
                vp::fail("unknown-type");
                panic!()
            }
        }
    }
}
fn pick(mut f: Vec<(&'static str, T)>, names: &[&str]) -> N {
    vp::check(f.len() == names.len(), "fields");
    // (under other names: in the order of declaration)
    if names.iter().all(|n| f.iter().any(|(k, _)| k == n)) {
        f.sort_by_key(|(k, _)| names.iter().position(|n| n == k));
    }
    N::Rec(f.into_iter().map(|(_, x)| x.n().0).collect(), 0)
}
fn hidden<V: Serialize>(v: &V, names: &[&str]) -> N {
    match v.serialize(S) {
        Ok(T::Struct(_, f)) => pick(f, names),
        _ => {
            vp::fail("hidden");
            panic!()
        }
    }
}
macro_rules! hidden {
    ($t:ty: $($f:ident),*) => {
        impl L for $t {
            fn n(&self) -> N {
                hidden(self, &[$(stringify!($f)),*])
            }
        }
    };
}
use crate::gen::E;
impl ser::Error for E {
    fn custom<X: std::fmt::Display>(_: X) -> Self {
        E
    }
}
struct S;
struct Fields(&'static str, Vec<(&'static str, T)>);
impl ser::SerializeStruct for Fields {
    type Ok = T;
    type Error = E;
    fn serialize_field<V: ?Sized + Serialize>(&mut self, k: &'static str, v: &V) -> Result<(), E> {
        self.1.push((k, v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<T, E> {
        Ok(T::Struct(self.0, self.1))
    }
}
macro_rules! no {
    ($($f:ident($($t:ty),*))*) => { $(fn $f(self, $(_: $t),*) -> Result<T, E> { Err(E) })* };
}
impl Serializer for S {
    type Ok = T;
    type Error = E;
    type SerializeSeq = ser::Impossible<T, E>;
    type SerializeTuple = ser::Impossible<T, E>;
    type SerializeTupleStruct = ser::Impossible<T, E>;
    type SerializeTupleVariant = ser::Impossible<T, E>;
    type SerializeMap = ser::Impossible<T, E>;
    type SerializeStruct = Fields;
    type SerializeStructVariant = ser::Impossible<T, E>;
    no! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16) serialize_f64(f64) serialize_char(char)
        serialize_bytes(&[u8]) serialize_unit() serialize_unit_struct(&'static str) serialize_unit_variant(&'static str, u32, &'static str) }
    fn serialize_u32(self, v: u32) -> Result<T, E> {
        Ok(T::Leaf(v.n(), 4))
    }
    fn serialize_u64(self, v: u64) -> Result<T, E> {
        Ok(T::Leaf(v.n(), 8))
    }
    fn serialize_f32(self, v: f32) -> Result<T, E> {
        Ok(T::Leaf(v.n(), 4))
    }
    fn serialize_str(self, v: &str) -> Result<T, E> {
        Ok(T::Leaf(text(v.as_bytes(), 4), 4))
    }
    fn serialize_none(self) -> Result<T, E> {
        Ok(T::Leaf(N::Rel(8, None), 8))
    }
    fn serialize_some<V: ?Sized + Serialize>(self, v: &V) -> Result<T, E> {
        let (n, a) = v.serialize(S)?.n();
        Ok(T::Leaf(N::Rel(a, Some(Box::new(n))), 8))
    }
    fn serialize_newtype_struct<V: ?Sized + Serialize>(self, _: &'static str, v: &V) -> Result<T, E> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<V: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &V) -> Result<T, E> {
        Err(E)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E)
    }
    fn serialize_struct(self, name: &'static str, _: usize) -> Result<Fields, E> {
        Ok(Fields(name, Vec::new()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E)
    }
}

// ---- render pipelines ----
mod render {
    use super::*;
    use ssbh_lib::formats::nrpd::*;
    tagged!(FrameBuffer: Framebuffer0 = 0, Framebuffer1 = 1, UniformBuffer = 2, Framebuffer3 = 3, Framebuffer4 = 4);
    rec!(Framebuffer0 => name, width, height, unk1, unk2, unk3);
    rec!(Framebuffer1 => name, width, height, unk1, unk2, unk3);
    rec!(UniformBuffer => name, unk1, unk2, unk3);
    rec!(Framebuffer3 => name, width, height, unk1, unk2, unk3, unk4);
    rec!(Framebuffer4 => name, width, height, unk3);
    rec!(NrpdSampler => name, data, unk13);
    rec!(NrpdRasterizerState => name, fill_mode, cull_mode, depth_bias, unk4, unk5, unk6);
    rec!(NrpdBlendState => name, source_color, unk2, destination_color, unk4, unk5, unk6, alpha_sample_to_coverage, unk8, unk9, unk10);
    rec!(DepthState => name, unk2, unk3, unk4, unk5, unk6, unk7, unk8, unk9, unk10, unk11);
    tagged!(State: Sampler = 0, RasterizerState = 1, DepthState = 2, BlendState = 3);
    tagged!(RenderPassData: FramebufferRtp = 0, PassUnk1 = 1, UnkTexture1 = 2, UnkLight = 3, Unk8 = 8, ColorClear = 9, DepthStencilClear = 10, Viewport = 12, Sampler = 13, BlendState = 14,
        RasterizerState = 15, DepthStencilState = 16, FramebufferRenderTarget = 17, FramebufferDepthStencil = 18, UnkTexture2 = 19);
    hidden!(RenderPassData0: unk1, unk2, unk3);
    hidden!(RenderPassData1: unk1, unk2);
    hidden!(RenderPassData2: unk1, unk2, unk3, unk4, unk5, unk6);
    hidden!(RenderPassData3: unk1, unk2, unk3, unk4, unk5, unk6);
    hidden!(RenderPassData8: unk1, unk2, unk3, unk4, unk5, unk6);
    hidden!(RenderPassData13: unk1, unk2, unk3, unk4, unk5, unk6);
    hidden!(RenderPassData19: unk1, unk2);
    hidden!(ColorClear: name, color, unk1);
    hidden!(DepthStencilClear: name, depth, stencil);
    hidden!(Viewport: name, unk2, width, height, unk_min, unk_max, unk4);
    rec!(@ RenderPassContainer, 8, 8, name, unk1, unk2, unk3);
    tagged!(RenderPassUnkData: UnkDataUnk0 = 0, UnkDataUnk3 = 3);
    rec!(Unk3Data => unk1, unk2, unk3, unk4, unk5, unk6);
    rec!(StringPair => item1, item2);
    rec!(UnkItem1 => unk1, unk2);
    rec!(UnkItem20 => unk1, unk2);
    rec!(UnkItem21 => unk1, unk2, unk3);
    rec!(UnkItem22 => unk1, unk2, unk3, unk4, unk5, unk6, unk8);
    rec!(UnkItem24 => unk1, unk2, unk3);
    tagged!(UnkItem2: UnkItem20 = 0, UnkItem21 = 1, UnkItem22 = 2, UnkItem24 = 4);
    rec!(UnkItem3 => name, value);
    tags!(UnkFormat u64: UnkFormat0 = 0x100, UnkFormat1 = 0x134, UnkFormat2 = 0x144, UnkFormat3 = 0x210, UnkFormat4 = 0x214, UnkFormat5 = 0x246, UnkFormat6 = 0x321, UnkFormat7 = 0x344, UnkFormat8 = 0x400, UnkFormat9 = 0x401, UnkFormat10 = 0x405, UnkFormat11 = 0x440);
    agrees!(y_nrpd, Nrpd, |v| {
        let Nrpd::V16 {
            frame_buffers, state_containers, render_passes, unk_string_list1, unk_string_list2, unk_list, unk_width1, unk_height1, unk3, unk4, unk5, unk6, unk7, unk8, unk9, unk_width2, unk_height2, unk10,
        } = v;
        let mut f = vec![frame_buffers.n(), state_containers.n(), render_passes.n(), unk_string_list1.n(), unk_string_list2.n(), unk_list.n()];
        f.extend([unk_width1, unk_height1, unk3, unk4, unk5, unk6, unk7, unk8].map(|x| x.n()));
        f.extend([unk9.n(), unk_width2.n(), unk_height2.n(), unk10.n()]);
        file(b"DPRN", (1, 6), N::Rec(f, 0))
    });
}
