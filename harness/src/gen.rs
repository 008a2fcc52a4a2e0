//! Values of any serde-deserializable type with symbolic leaves. Shapes (array lengths, string
//! lengths, enum variants, present or absent options) are decisions: the default of each is
//! taken, except at up to `dev` decision points, where every alternative is explored. Numbers,
//! characters and buffer bytes are symbolic.
use crate::vp;
use serde::de::{self, DeserializeOwned, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, SeqAccess, VariantAccess, Visitor};

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
}

pub struct G {
    /// decision points that may still leave the default
    pub dev: u64,
    /// variant of the outermost enum, when there is one
    pub top: Option<u32>,
    /// default variant of all inner enums (modulo their number)
    pub var: u32,
    /// default array length
    pub len: u64,
    /// floats are arbitrary bit patterns instead of non-NaN values
    pub nan: bool,
    /// default string and buffer length
    pub slen: u64,
    pub maxlen: u64,
    /// numbers and characters are fixed (counting up) instead of symbolic
    pub fixed: bool,
    pub count: u64,
    /// text is of even length and hexadecimal, so that it will do for byte buffers too
    pub hex: bool,
    /// fixed numbers are the largest of their width, fractions, and very large or small ones
    pub extreme: bool,
    /// enumerations of more variants than this have no alternatives
    pub most: u32,
}
impl G {
    pub fn new() -> G {
        G { dev: 1, top: None, var: 0, len: 1, nan: false, slen: 2, maxlen: 2, fixed: false, count: 0, hex: false, extreme: false, most: 10000 }
    }
    fn uint(&mut self, n: usize) -> u64 {
        if self.fixed {
            self.count = self.count % 100 + 1;
            return if self.extreme { u64::MAX - (self.count % 3) } else { self.count };
        }
        let mut b = [0u8; 8];
        vp::fill(&mut b[..n]);
        u64::from_le_bytes(b)
    }
    fn raw(&mut self, n: usize) -> Vec<u8> {
        let fixed = |i: usize| b'a' + (i % if self.hex { 6 } else { 26 }) as u8;
        if self.fixed {
            return (0..n).map(fixed).collect();
        }
        if n < 20 {
            return vp::bytes(n);
        }
        // of long text only the first and the last bytes
        let mut v: Vec<u8> = (0..n).map(fixed).collect();
        vp::fill(&mut v[..2]);
        vp::fill(&mut v[n - 2..]);
        v
    }
    pub fn make<T: DeserializeOwned>(&mut self) -> T {
        match T::deserialize(&mut *self) {
            Ok(v) => v,
            Err(_) => {
                vp::fail("gen");
                panic!()
            }
        }
    }
    /// 0 is the default, the others alternatives
    #[inline(never)]
    pub fn pick(&mut self, n: u64) -> u64 {
        if self.dev == 0 || n < 2 || self.big() {
            return 0;
        }
        let c = vp::choice(n);
        if c != 0 {
            self.dev -= 1;
        }
        c
    }
    /// the only deviation is something long
    fn big(&self) -> bool {
        self.maxlen > 10
    }
    fn number(&mut self, def: u64, alts: &[u64]) -> u64 {
        if self.big() {
            if self.dev == 0 || vp::choice(2) == 0 {
                return def;
            }
            self.dev -= 1;
            return self.maxlen;
        }
        let c = self.pick(alts.len() as u64 + 1);
        if c == 0 {
            def
        } else {
            alts[c as usize - 1]
        }
    }
    fn text(&mut self) -> Vec<u8> {
        let n = self.number(self.slen, if self.hex { &[0, 4, 6] } else { &[0, 1, 3, 4, 5, 7, 8] }) as usize;
        let b = self.raw(n);
        // one condition: every byte is 1..=0x7f
        let mut bad = 0u8;
        for c in &b {
            bad |= (c & 0x80) | ((*c == 0) as u8);
        }
        vp::assume(bad == 0);
        b
    }
}

macro_rules! num {
    ($f:ident, $v:ident, $e:expr, $s:ident) => {
        fn $f<V: Visitor<'de>>($s, v: V) -> Result<V::Value, E> {
            v.$v($e)
        }
    };
}
impl<'de, 'a> Deserializer<'de> for &'a mut G {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    num!(deserialize_bool, visit_bool, if self.fixed { true } else { vp::bool() }, self);
    num!(deserialize_i8, visit_i8, self.uint(1) as i8, self);
    num!(deserialize_i16, visit_i16, self.uint(2) as i16, self);
    num!(deserialize_i32, visit_i32, self.uint(4) as i32, self);
    num!(deserialize_i64, visit_i64, self.uint(8) as i64, self);
    num!(deserialize_u8, visit_u8, self.uint(1) as u8, self);
    num!(deserialize_u16, visit_u16, self.uint(2) as u16, self);
    num!(deserialize_u32, visit_u32, self.uint(4) as u32, self);
    num!(deserialize_u64, visit_u64, self.uint(8), self);
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_f32(if self.extreme {
            self.count += 1;
            [0.1, f32::MAX, 1.0e-45, -0.0, 1.0 / 3.0, -123456.79, f32::MIN_POSITIVE, 16777217.0e10][self.count as usize % 8]
        } else if self.fixed { self.uint(1) as f32 } else if self.nan { vp::f32() } else { vp::real() })
    }
    fn deserialize_f64<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn deserialize_char<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_string(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let b = self.text();
        v.visit_string(unsafe { String::from_utf8_unchecked(b) })
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_byte_buf(v)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.number(self.slen + 1, &[0, 1, 4, 7, 8, 9]);
        let b = self.raw(n as usize);
        v.visit_byte_buf(b)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.pick(2) == 0 {
            v.visit_some(self)
        } else {
            v.visit_none()
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let mut alts = Vec::new();
        for n in 0..=self.maxlen.min(10) {
            if n != self.len {
                alts.push(n);
            }
        }
        let n = self.number(self.len, &alts);
        v.visit_seq(Seq { g: self, left: n as usize, done: 0, long: n > 10 })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { g: self, left: n, done: 0, long: false })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { g: self, left: n, done: 0, long: false })
    }
    fn deserialize_map<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { g: self, left: f.len(), done: 0, long: false })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, names: &'static [&'static str], v: V) -> Result<V::Value, E> {
        let n = names.len() as u32;
        let k = match self.top.take() {
            Some(k) => k,
            None => {
                let d = self.var % n;
                (if n > self.most { 0 } else { self.pick(n as u64) as u32 } + d) % n
            }
        };
        v.visit_enum(En { g: self, k })
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
struct Seq<'a> {
    g: &'a mut G,
    left: usize,
    done: usize,
    long: bool,
}
impl<'de, 'a> SeqAccess<'de> for Seq<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        self.done += 1;
        // of a long array only the first and the last element are not fixed
        if self.long && self.done > 1 && self.left > 0 && !self.g.fixed {
            self.g.fixed = true;
            let v = s.deserialize(&mut *self.g).map(Some);
            self.g.fixed = false;
            return v;
        }
        s.deserialize(&mut *self.g).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
struct En<'a> {
    g: &'a mut G,
    k: u32,
}
impl<'de, 'a> EnumAccess<'de> for En<'a> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Self), E> {
        let d: de::value::U32Deserializer<E> = self.k.into_deserializer();
        Ok((s.deserialize(d)?, self))
    }
}
impl<'de, 'a> VariantAccess<'de> for En<'a> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(self.g)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { g: self.g, left: n, done: 0, long: false })
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Seq { g: self.g, left: f.len(), done: 0, long: false })
    }
}
