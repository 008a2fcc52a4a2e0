//! K01: material data.
use crate::{gen::G, vp};
use ssbh_data::matl_data::*;
use ssbh_lib::{formats::matl::*, Color4f, SsbhString, Vector4};

fn fit(g: &mut G) {
    g.dev = vp::param(0);
    g.len = vp::param(1);
    g.slen = vp::param(2);
    g.maxlen = vp::param(3);
    g.nan = true;
    if vp::param(7) > 0 {
        g.most = vp::param(7) as u32;
    }
}
fn text(a: &str, b: &str) -> bool {
    vp::same(a.as_bytes(), b.as_bytes())
}
fn f(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}
fn v4(a: &Vector4, b: &Vector4) -> bool {
    f(a.x, b.x) & f(a.y, b.y) & f(a.z, b.z) & f(a.w, b.w)
}
fn color(a: &Color4f, b: &Color4f) -> bool {
    f(a.r, b.r) & f(a.g, b.g) & f(a.b, b.b) & f(a.a, b.a)
}
fn uv(a: &UvTransform, b: &UvTransform) -> bool {
    f(a.scale_u, b.scale_u) & f(a.scale_v, b.scale_v) & f(a.rotation, b.rotation) & f(a.translate_u, b.translate_u) & f(a.translate_v, b.translate_v)
}
fn sampler(a: &SamplerData, b: &SamplerData) -> bool {
    (a.wraps, a.wrapt, a.wrapr, a.min_filter, a.mag_filter, a.max_anisotropy) == (b.wraps, b.wrapt, b.wrapr, b.min_filter, b.mag_filter, b.max_anisotropy)
        && color(&a.border_color, &b.border_color)
        && f(a.lod_bias, b.lod_bias)
}
fn stored_sampler(a: &SamplerData, b: &Sampler) -> bool {
    let level = if b.texture_filtering_type == FilteringType::AnisotropicFiltering { b.max_anisotropy } else { MaxAnisotropy::One };
    (a.wraps, a.wrapt, a.wrapr, a.min_filter, a.mag_filter, a.max_anisotropy) == (b.wraps, b.wrapt, b.wrapr, b.min_filter, b.mag_filter, level)
        && color(&a.border_color, &b.border_color)
        && f(a.lod_bias, b.lod_bias)
}
fn raster(a: &RasterizerStateData, fill: FillMode, cull: CullMode, bias: f32) -> bool {
    a.fill_mode == fill && a.cull_mode == cull && f(a.depth_bias, bias)
}
type Blend = (BlendFactor, BlendOperation, BlendFactor, BlendFactor, BlendOperation, BlendFactor);
fn blend(a: &BlendStateData) -> Blend {
    (a.source_color, a.color_operation, a.destination_color, a.source_alpha, a.alpha_operation, a.destination_alpha)
}

fn each<T>(a: &[ParamData<T>], b: &[ParamData<T>], id: &str, eq: impl Fn(&T, &T) -> bool) {
    vp::check(a.len() == b.len(), id);
    for (a, b) in a.iter().zip(b) {
        vp::check(a.param_id == b.param_id && eq(&a.data, &b.data), id);
    }
}
fn same(a: &MatlEntryData, b: &MatlEntryData) {
    vp::check(text(&a.material_label, &b.material_label), "material");
    vp::check(text(&a.shader_label, &b.shader_label), "shader");
    each(&a.blend_states, &b.blend_states, "blend", |a, b| blend(a) == blend(b) && a.alpha_sample_to_coverage == b.alpha_sample_to_coverage);
    each(&a.floats, &b.floats, "float", |a, b| f(*a, *b));
    each(&a.booleans, &b.booleans, "boolean", |a, b| a == b);
    each(&a.vectors, &b.vectors, "vector", v4);
    each(&a.rasterizer_states, &b.rasterizer_states, "rasterizer", |a, b| raster(a, b.fill_mode, b.cull_mode, b.depth_bias));
    each(&a.samplers, &b.samplers, "sampler", sampler);
    each(&a.textures, &b.textures, "texture", |a, b| text(a, b));
    each(&a.uv_transforms, &b.uv_transforms, "uv", uv);
}
fn count(e: &MatlEntryData) -> usize {
    e.blend_states.len() + e.floats.len() + e.booleans.len() + e.vectors.len() + e.rasterizer_states.len() + e.samplers.len() + e.textures.len() + e.uv_transforms.len()
}

/// The entry has the parameters of the stored attributes, in their order.
macro_rules! stored {
    ($name:ident, $entry:ty, $param:ident, $v16:expr) => {
        fn $name(d: &MatlEntryData, e: &$entry) {
            let t = |a: &str, s: &SsbhString| text(a, s.to_str().unwrap_or(""));
            vp::check(t(&d.material_label, &e.material_label) && t(&d.shader_label, &e.shader_label), "label.stored");
            let mut at = [0; 8];
            let mut next = |k: usize| {
                at[k] += 1;
                at[k] - 1
            };
            for a in &e.attributes.elements {
                let id = a.param_id;
                let ok = match &*a.param.data {
                    Some($param::Float(x)) => d.floats.get(next(0)).map_or(false, |p| p.param_id == id && f(p.data, *x)),
                    Some($param::Boolean(x)) => d.booleans.get(next(1)).map_or(false, |p| p.param_id == id && p.data == (*x != 0)),
                    Some($param::Vector4(x)) => d.vectors.get(next(2)).map_or(false, |p| p.param_id == id && v4(&p.data, x)),
                    Some($param::String(x)) => d.textures.get(next(3)).map_or(false, |p| p.param_id == id && t(&p.data, x)),
                    Some($param::Sampler(x)) => d.samplers.get(next(4)).map_or(false, |p| p.param_id == id && stored_sampler(&p.data, x)),
                    Some($param::UvTransform(x)) => d.uv_transforms.get(next(5)).map_or(false, |p| p.param_id == id && uv(&p.data, x)),
                    Some($param::BlendState(x)) => d.blend_states.get(next(6)).map_or(false, |p| {
                        let want = (x.source_color, x.color_operation, x.destination_color, x.source_alpha, x.alpha_operation, x.destination_alpha);
                        p.param_id == id && blend(&p.data) == want && $v16.0(&p.data, x)
                    }),
                    Some($param::RasterizerState(x)) => d.rasterizer_states.get(next(7)).map_or(false, |p| p.param_id == id && $v16.1(&p.data, x)),
                    _ => true,
                };
                vp::check(ok, "param.stored");
            }
            vp::check(count(d) == at.iter().sum::<usize>(), "params.stored");
        }
    };
}
stored!(stored16, MatlEntryV16, ParamV16, (
    |p: &BlendStateData, x: &BlendStateV16| p.alpha_sample_to_coverage == (x.alpha_sample_to_coverage != 0),
    |p: &RasterizerStateData, x: &RasterizerStateV16| raster(p, x.fill_mode, x.cull_mode, x.depth_bias)
));
stored!(stored15, MatlEntryV15, ParamV15, (
    |p: &BlendStateData, _: &BlendStateV15| !p.alpha_sample_to_coverage,
    |p: &RasterizerStateData, x: &RasterizerStateV15| raster(p, FillMode::Solid, x.cull_mode, 0.0)
));

fn create(d: &MatlData) -> Option<Vec<MatlEntryV16>> {
    match Matl::try_from(d) {
        Ok(Matl::V16 { entries }) => Some(entries.elements),
        Ok(_) => {
            vp::fail("version.created");
            None
        }
        Err(_) => {
            vp::fail("refused");
            None
        }
    }
}
/// stored booleans are 0 or 1, and anisotropic filtering is on exactly when it has an effect
fn check(d: &MatlData) {
    let Some(es) = create(d) else { return };
    vp::check(es.len() == d.entries.len(), "entries");
    for (a, b) in d.entries.iter().zip(&es) {
        vp::check(b.attributes.elements.len() == count(a), "attributes");
        vp::check(b.attributes.elements.iter().all(|a| !matches!(&*a.param.data, Some(ParamV16::Boolean(b)) if *b > 1)), "boolean.stored");
        stored16(a, b);
    }
    match MatlData::try_from(Matl::V16 { entries: es.into() }) {
        Ok(r) => {
            vp::check((r.major_version, r.minor_version) == (1, 6), "version");
            vp::check(r.entries.len() == d.entries.len(), "entries");
            d.entries.iter().zip(&r.entries).for_each(|(a, b)| same(a, b));
            vp::reach("same");
        }
        Err(_) => vp::fail("convert"),
    }
}
/// [decisions, array length, string length, longest array, default enum variant, entries]
#[no_mangle]
pub extern "C" fn m_data() {
    let mut g = G::new();
    fit(&mut g);
    g.var = vp::param(4) as u32;
    let entries = (0..vp::param(5)).map(|_| g.make()).collect();
    check(&MatlData { major_version: 1, minor_version: 6, entries });
}
/// any number of parameters of every kind: [longest, kind and kind that vary]
#[no_mangle]
pub extern "C" fn m_counts() {
    let mut g = G::new();
    g.dev = 0;
    g.len = 0;
    g.slen = 1;
    let mut e: MatlEntryData = g.make();
    let n = vp::param(0);
    let (a, b) = (vp::param(1), vp::param(2));
    for k in 0..8 {
        let n = if k == a || k == b { vp::choice(n + 1) } else { 1 };
        for _ in 0..n {
            match k {
                0 => e.blend_states.push(g.make()),
                1 => e.floats.push(g.make()),
                2 => e.booleans.push(g.make()),
                3 => e.vectors.push(g.make()),
                4 => e.rasterizer_states.push(g.make()),
                5 => e.samplers.push(g.make()),
                6 => e.textures.push(g.make()),
                _ => e.uv_transforms.push(g.make()),
            }
        }
    }
    check(&MatlData { major_version: 1, minor_version: 6, entries: vec![e] });
}
/// any version
#[no_mangle]
pub extern "C" fn m_version() {
    let (a, b) = (vp::u16(), vp::u16());
    let mut g = G::new();
    g.dev = 0;
    let d = MatlData { major_version: a, minor_version: b, entries: if vp::flag() { vec![g.make()] } else { vec![] } };
    match Matl::try_from(&d) {
        Ok(m) => {
            vp::check(a == 1 && b == 6 && matches!(m, Matl::V16 { .. }), "accepted");
            vp::reach("created");
        }
        Err(error::Error::UnsupportedVersion { major_version, minor_version }) => {
            vp::check(major_version == a && minor_version == b && !(a == 1 && b == 6), "refused");
            vp::reach("refused");
        }
        Err(_) => vp::fail("error"),
    }
}
/// any stored file: [decisions, array length, string length, longest array, default variant, attributes, minor]
#[no_mangle]
pub extern "C" fn m_stored() {
    let mut g = G::new();
    fit(&mut g);
    g.var = vp::param(4) as u32;
    let n = vp::param(5);
    let read = |m: &Matl| match MatlData::try_from(m) {
        Ok(d) => d,
        Err(_) => {
            vp::fail("convert");
            panic!()
        }
    };
    let (d, minor) = if vp::param(6) == 5 {
        let e = MatlEntryV15 { material_label: g.make(), attributes: (0..n).map(|_| g.make()).collect::<Vec<_>>().into(), shader_label: g.make() };
        let m = Matl::V15 { entries: vec![e].into() };
        let d = read(&m);
        if let (Matl::V15 { entries }, Some(d)) = (&m, d.entries.first()) {
            stored15(d, &entries.elements[0]);
            // version 1.5 entries keep what that version stores
            let r = MatlEntryData::from(&MatlEntryV15::from(d));
            same(&MatlEntryData { blend_states: vec![], ..d.clone() }, &MatlEntryData { blend_states: vec![], ..r.clone() });
            vp::check(d.blend_states.len() == r.blend_states.len(), "blend.v15");
            for (a, b) in d.blend_states.iter().zip(&r.blend_states) {
                vp::check(a.param_id == b.param_id && a.data.source_color == b.data.source_color && a.data.destination_color == b.data.destination_color, "blend.v15");
            }
        }
        (d, 5)
    } else {
        let e = MatlEntryV16 { material_label: g.make(), attributes: (0..n).map(|_| g.make()).collect::<Vec<_>>().into(), shader_label: g.make() };
        let m = Matl::V16 { entries: vec![e].into() };
        let d = read(&m);
        if let (Matl::V16 { entries }, Some(d)) = (&m, d.entries.first()) {
            stored16(d, &entries.elements[0]);
        }
        (d, 6)
    };
    vp::check((d.major_version, d.minor_version) == (1, minor), "version");
    vp::check(d.entries.len() == 1, "entries");
    vp::reach("stored");
}
