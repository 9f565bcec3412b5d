//! A serde serializer that writes the JSON text the crate's users see (compact, fields in order).
use serde::ser::*;
use std::fmt;

#[derive(Debug)]
pub struct Er;
impl fmt::Display for Er {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Er {}
impl Error for Er {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Er
    }
}

pub struct Out {
    pub b: Vec<u8>,
}
impl Out {
    pub fn new() -> Out {
        Out { b: Vec::with_capacity(4000) }
    }
    fn s(&mut self, s: &str) {
        self.b.extend_from_slice(s.as_bytes());
    }
}
pub struct Seq<'a> {
    o: &'a mut Out,
    first: bool,
    close: &'static str,
}
impl<'a> Seq<'a> {
    fn sep(&mut self) {
        if !self.first {
            self.o.b.push(b',');
        }
        self.first = false;
    }
}

fn num(o: &mut Out, v: u64) {
    let mut t = [0u8; 20];
    let mut i = 20;
    let mut v = v;
    loop {
        i -= 1;
        t[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    o.b.extend_from_slice(&t[i..]);
}

impl<'a> Serializer for &'a mut Out {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Seq<'a>;
    type SerializeTuple = Seq<'a>;
    type SerializeTupleStruct = Seq<'a>;
    type SerializeTupleVariant = Impossible<(), Er>;
    type SerializeMap = Impossible<(), Er>;
    type SerializeStruct = Seq<'a>;
    type SerializeStructVariant = Seq<'a>;
    fn serialize_bool(self, v: bool) -> Result<(), Er> {
        self.s(if v { "true" } else { "false" });
        Ok(())
    }
    fn serialize_i8(self, v: i8) -> Result<(), Er> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i16(self, v: i16) -> Result<(), Er> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i32(self, v: i32) -> Result<(), Er> {
        self.serialize_i64(v as i64)
    }
    fn serialize_i64(self, v: i64) -> Result<(), Er> {
        if v < 0 {
            self.b.push(b'-');
        }
        num(self, v.unsigned_abs());
        Ok(())
    }
    fn serialize_u8(self, v: u8) -> Result<(), Er> {
        num(self, v as u64);
        Ok(())
    }
    fn serialize_u16(self, v: u16) -> Result<(), Er> {
        num(self, v as u64);
        Ok(())
    }
    fn serialize_u32(self, v: u32) -> Result<(), Er> {
        num(self, v as u64);
        Ok(())
    }
    fn serialize_u64(self, v: u64) -> Result<(), Er> {
        num(self, v);
        Ok(())
    }
    fn serialize_f32(self, v: f32) -> Result<(), Er> {
        self.serialize_f64(v as f64)
    }
    /// numbers keep their exact bits: `#` and the eight little-endian bytes
    fn serialize_f64(self, v: f64) -> Result<(), Er> {
        self.b.push(b'#');
        let x = v.to_bits().to_le_bytes();
        self.b.extend_from_slice(&x);
        Ok(())
    }
    fn serialize_char(self, v: char) -> Result<(), Er> {
        let mut t = [0u8; 4];
        let s: &str = v.encode_utf8(&mut t);
        self.serialize_str(s)
    }
    fn serialize_str(self, v: &str) -> Result<(), Er> {
        self.b.push(b'"');
        self.s(v);
        self.b.push(b'"');
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Er> {
        self.b.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), Er> {
        self.s("null");
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Er> {
        self.s("null");
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Er> {
        self.s("null");
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), Er> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<(), Er> {
        self.s("{\"");
        self.s(n);
        self.s("\":");
        v.serialize(&mut *self)?;
        self.s("}");
        Ok(())
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq<'a>, Er> {
        self.b.push(b'[');
        Ok(Seq { o: self, first: true, close: "]" })
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq<'a>, Er> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq<'a>, Er> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Er> {
        Err(Er)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Er> {
        Err(Er)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Seq<'a>, Er> {
        self.b.push(b'{');
        Ok(Seq { o: self, first: true, close: "}" })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq<'a>, Er> {
        self.s("{\"");
        self.s(n);
        self.s("\":{");
        Ok(Seq { o: self, first: true, close: "}}" })
    }
}
impl<'a> SerializeSeq for Seq<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        self.sep();
        v.serialize(&mut *self.o)
    }
    fn end(self) -> Result<(), Er> {
        self.o.s(self.close);
        Ok(())
    }
}
impl<'a> SerializeTuple for Seq<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<(), Er> {
        SerializeSeq::end(self)
    }
}
impl<'a> SerializeTupleStruct for Seq<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<(), Er> {
        SerializeSeq::end(self)
    }
}
impl<'a> SerializeStruct for Seq<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Er> {
        self.sep();
        self.o.b.push(b'"');
        self.o.s(k);
        self.o.s("\":");
        v.serialize(&mut *self.o)
    }
    fn end(self) -> Result<(), Er> {
        self.o.s(self.close);
        Ok(())
    }
}
impl<'a> SerializeStructVariant for Seq<'a> {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Er> {
        SerializeStruct::serialize_field(self, k, v)
    }
    fn end(self) -> Result<(), Er> {
        SerializeStruct::end(self)
    }
}
