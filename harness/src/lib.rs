#![allow(static_mut_refs, unused_imports, dead_code)]
pub mod vp;
#[cfg(feature = "lib")]
pub mod gen;
#[cfg(feature = "lib")]
pub mod rec;
#[cfg(feature = "fmt")]
mod fmt;
#[cfg(any(feature = "prim", feature = "layout"))]
pub mod model;
#[cfg(feature = "prim")]
mod prim;
#[cfg(feature = "layout")]
mod layout;
#[cfg(feature = "json")]
mod json;
#[cfg(feature = "disk")]
pub mod disk;
#[cfg(feature = "disk")]
mod files;
#[cfg(feature = "j02")]
mod tools;
#[cfg(feature = "p01")]
mod io;
#[cfg(feature = "geo")]
mod geo;
#[cfg(feature = "read")]
mod read;
#[cfg(feature = "skel")]
mod skel;
#[cfg(feature = "shdr")]
mod shdr;
#[cfg(feature = "matl")]
mod matl;
#[cfg(feature = "misc")]
mod misc;
#[cfg(feature = "mesh")]
mod mesh;
#[cfg(feature = "anim")]
mod anim;
