//! Compares what the crate serializes with the tree the oracle expects. Fields are looked up by
//! name, so their order does not matter, and fields ESTree does not have are ignored. Differences
//! in text that may be symbolic are accumulated without branching.
use crate::js::{same, N, V};
use wasm_bindgen::Er;
use serde::ser::*;

pub struct Cx {
    /// bits that differ somewhere
    pub diff: u64,
    /// a structural difference
    pub bad: bool,
    /// a node of a class field or a static block was seen
    pub field: bool,
}

/// Does the tree hold a class field or a static block (`PropertyDefinition`, `StaticBlock`)?
pub fn has_field<T: Serialize + ?Sized>(t: &T) -> bool {
    let mut cx = Cx { diff: 0, bad: false, field: false };
    let _ = t.serialize(C { cx: &mut cx, x: X::Any });
    cx.field
}

#[derive(Clone, Copy)]
enum X<'a> {
    V(&'a V),
    /// this type name
    Ty(&'static str),
    Any,
    /// the type of any node
    Kind,
    /// nothing is expected here
    None,
}

pub struct C<'a> {
    cx: &'a mut Cx,
    x: X<'a>,
}

pub fn compare<T: Serialize + ?Sized>(t: &T, want: &N, cx: &mut Cx) {
    let _ = t.serialize(Root { cx, n: want });
}

pub struct Nd<'a> {
    cx: &'a mut Cx,
    n: Option<&'a N>,
    seen: u64,
    typed: bool,
}
pub struct Ls<'a> {
    cx: &'a mut Cx,
    l: Option<&'a Vec<V>>,
    i: usize,
}

impl<'a> C<'a> {
    fn fail(self) -> Result<(), Er> {
        self.cx.bad = true;
        Ok(())
    }
    fn text(self, v: &str) -> Result<(), Er> {
        let w: &[u8] = match self.x {
            X::Any => return Ok(()),
            X::Kind => {
                let b = v.as_bytes();
                self.cx.field |= same(b, b"PropertyDefinition") || same(b, b"StaticBlock");
                return Ok(());
            }
            X::V(V::S(s)) => s.as_bytes(),
            X::V(V::Str(s)) => s,
            X::Ty(s) => s.as_bytes(),
            _ => return self.fail(),
        };
        let b = v.as_bytes();
        if b.len() != w.len() {
            return self.fail();
        }
        let mut d = 0u8;
        let mut i = 0;
        while i < b.len() {
            d |= b[i] ^ w[i];
            i += 1;
        }
        self.cx.diff |= d as u64;
        Ok(())
    }
}

/// The serializer of a whole expected node.
pub struct Root<'a> {
    cx: &'a mut Cx,
    n: &'a N,
}

macro_rules! scalar {
    ($($f:ident $t:ty;)*) => {$(
        fn $f(self, _v: $t) -> Result<(), Er> { self.fail_any() }
    )*}
}

impl<'a> Root<'a> {
    fn fail_any(self) -> Result<(), Er> {
        self.cx.bad = true;
        Ok(())
    }
}

impl<'a> Serializer for Root<'a> {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Ls<'a>;
    type SerializeTuple = Ls<'a>;
    type SerializeTupleStruct = Ls<'a>;
    type SerializeTupleVariant = Impossible<(), Er>;
    type SerializeMap = Nd<'a>;
    type SerializeStruct = Nd<'a>;
    type SerializeStructVariant = Nd<'a>;
    scalar! {
        serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64;
        serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_f32 f32;
        serialize_f64 f64; serialize_char char; serialize_str &str; serialize_bytes &[u8];
        serialize_unit_struct &'static str;
    }
    fn serialize_none(self) -> Result<(), Er> {
        self.fail_any()
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Er> {
        self.fail_any()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Er> {
        self.fail_any()
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<(), Er> {
        self.fail_any()
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Ls<'a>, Er> {
        self.cx.bad = true;
        Ok(Ls { cx: self.cx, l: None, i: 0 })
    }
    fn serialize_tuple(self, n: usize) -> Result<Ls<'a>, Er> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Ls<'a>, Er> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Impossible<(), Er>, Er> {
        Err(Er)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Nd<'a>, Er> {
        Ok(Nd { cx: self.cx, n: Some(self.n), seen: 0, typed: false })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Nd<'a>, Er> {
        self.serialize_map(None)
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Nd<'a>, Er> {
        self.serialize_map(None)
    }
}

impl<'a> Serializer for C<'a> {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Ls<'a>;
    type SerializeTuple = Ls<'a>;
    type SerializeTupleStruct = Ls<'a>;
    type SerializeTupleVariant = Impossible<(), Er>;
    type SerializeMap = Nd<'a>;
    type SerializeStruct = Nd<'a>;
    type SerializeStructVariant = Nd<'a>;
    fn serialize_bool(self, v: bool) -> Result<(), Er> {
        match self.x {
            X::V(V::Bool(w)) => {
                self.cx.diff |= (v ^ *w) as u64;
                Ok(())
            }
            X::Any => Ok(()),
            _ => self.fail(),
        }
    }
    fn serialize_i8(self, v: i8) -> Result<(), Er> {
        self.serialize_f64(v as f64)
    }
    fn serialize_i16(self, v: i16) -> Result<(), Er> {
        self.serialize_f64(v as f64)
    }
    fn serialize_i32(self, v: i32) -> Result<(), Er> {
        self.serialize_f64(v as f64)
    }
    fn serialize_i64(self, v: i64) -> Result<(), Er> {
        self.serialize_f64(v as f64)
    }
    fn serialize_u8(self, v: u8) -> Result<(), Er> {
        self.serialize_f64(v as f64)
    }
    fn serialize_u16(self, v: u16) -> Result<(), Er> {
        self.serialize_f64(v as f64)
    }
    fn serialize_u32(self, v: u32) -> Result<(), Er> {
        self.serialize_f64(v as f64)
    }
    fn serialize_u64(self, v: u64) -> Result<(), Er> {
        self.serialize_f64(v as f64)
    }
    fn serialize_f32(self, v: f32) -> Result<(), Er> {
        self.serialize_f64(v as f64)
    }
    fn serialize_f64(self, v: f64) -> Result<(), Er> {
        match self.x {
            X::V(V::Num(w)) => {
                self.cx.diff |= v.to_bits() ^ w.to_bits();
                Ok(())
            }
            X::Any => Ok(()),
            _ => self.fail(),
        }
    }
    fn serialize_char(self, v: char) -> Result<(), Er> {
        let mut t = [0u8; 4];
        let s: &str = v.encode_utf8(&mut t);
        self.text(s)
    }
    fn serialize_str(self, v: &str) -> Result<(), Er> {
        self.text(v)
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Er> {
        self.fail()
    }
    fn serialize_none(self) -> Result<(), Er> {
        self.serialize_unit()
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Er> {
        match self.x {
            X::V(V::Null) | X::Any => Ok(()),
            _ => self.fail(),
        }
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Er> {
        self.serialize_unit()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), Er> {
        self.text(v)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<(), Er> {
        self.fail()
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Ls<'a>, Er> {
        let l = match self.x {
            X::V(V::List(l)) => Some(l),
            X::Any => None,
            _ => {
                self.cx.bad = true;
                None
            }
        };
        Ok(Ls { cx: self.cx, l, i: 0 })
    }
    fn serialize_tuple(self, n: usize) -> Result<Ls<'a>, Er> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Ls<'a>, Er> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Impossible<(), Er>, Er> {
        Err(Er)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Nd<'a>, Er> {
        let n = match self.x {
            X::V(V::Node(n)) => Some(&**n),
            X::Any => None,
            _ => {
                self.cx.bad = true;
                None
            }
        };
        Ok(Nd { cx: self.cx, n, seen: 0, typed: false })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Nd<'a>, Er> {
        self.serialize_map(None)
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Nd<'a>, Er> {
        self.serialize_map(None)
    }
}

impl<'a> Ls<'a> {
    fn elem<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        if self.cx.bad {
            return Ok(());
        }
        let x = match self.l {
            Some(l) => {
                if self.i < l.len() {
                    X::V(&l[self.i])
                } else {
                    X::None
                }
            }
            None => X::Any,
        };
        self.i += 1;
        v.serialize(C { cx: &mut *self.cx, x })
    }
    fn fin(self) -> Result<(), Er> {
        if let Some(l) = self.l {
            if self.i != l.len() {
                self.cx.bad = true;
            }
        }
        Ok(())
    }
}
impl<'a> SerializeSeq for Ls<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        self.elem(v)
    }
    fn end(self) -> Result<(), Er> {
        self.fin()
    }
}
impl<'a> SerializeTuple for Ls<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        self.elem(v)
    }
    fn end(self) -> Result<(), Er> {
        self.fin()
    }
}
impl<'a> SerializeTupleStruct for Ls<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        self.elem(v)
    }
    fn end(self) -> Result<(), Er> {
        self.fin()
    }
}

impl<'a> Nd<'a> {
    fn field<T: ?Sized + Serialize>(&mut self, k: &str, v: &T) -> Result<(), Er> {
        let n = match self.n {
            Some(n) => n,
            None => {
                let x = if same(k.as_bytes(), b"type") { X::Kind } else { X::Any };
                return v.serialize(C { cx: &mut *self.cx, x });
            }
        };
        if self.cx.bad {
            return Ok(());
        }
        if same(k.as_bytes(), b"type") {
            if n.ty.len() == 0 {
                return Ok(());
            }
            self.typed = true;
            return v.serialize(C { cx: &mut *self.cx, x: X::Ty(n.ty) });
        }
        for (i, (w, x)) in n.f.iter().enumerate() {
            if same(w.as_bytes(), k.as_bytes()) {
                self.seen |= 1 << i;
                return v.serialize(C { cx: &mut *self.cx, x: X::V(x) });
            }
        }
        // not an ESTree field of this node; `directive` would change its meaning
        if same(k.as_bytes(), b"directive") || same(k.as_bytes(), b"regex") {
            return v.serialize(C { cx: &mut *self.cx, x: X::V(&V::Null) });
        }
        Ok(())
    }
    fn fin(self) -> Result<(), Er> {
        if let Some(n) = self.n {
            if self.seen + 1 != 1u64 << n.f.len() || !self.typed && n.ty.len() > 0 {
                self.cx.bad = true;
            }
        }
        Ok(())
    }
}
impl<'a> SerializeStruct for Nd<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Er> {
        self.field(k, v)
    }
    fn end(self) -> Result<(), Er> {
        self.fin()
    }
}
impl<'a> SerializeStructVariant for Nd<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Er> {
        self.field(k, v)
    }
    fn end(self) -> Result<(), Er> {
        self.fin()
    }
}
impl<'a> SerializeMap for Nd<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Er> {
        Err(Er)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Er> {
        Err(Er)
    }
    fn end(self) -> Result<(), Er> {
        self.fin()
    }
}
