//! A stand-in for the real crate: a JavaScript value is kept as what it was made of.
pub use wbm::wasm_bindgen;

#[derive(Debug, Clone, PartialEq)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    /// what JSON.parse makes of this text
    Json(Vec<u8>),
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Str(s.to_string())
    }
    pub fn from_f64(x: f64) -> JsValue {
        JsValue::Num(x)
    }
    pub fn from_bool(x: bool) -> JsValue {
        JsValue::Bool(x)
    }
    pub fn from_serde<T: serde::Serialize + ?Sized>(t: &T) -> Result<JsValue, Er> {
        let mut o = Out::new();
        t.serialize(&mut o)?;
        Ok(JsValue::Json(o.b))
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::Str(s)
    }
}
impl<'a> From<&'a String> for JsValue {
    fn from(s: &'a String) -> JsValue {
        JsValue::Str(s.clone())
    }
}
impl<'a> From<&'a str> for JsValue {
    fn from(s: &'a str) -> JsValue {
        JsValue::Str(s.to_string())
    }
}
impl From<bool> for JsValue {
    fn from(x: bool) -> JsValue {
        JsValue::Bool(x)
    }
}
impl From<f64> for JsValue {
    fn from(x: f64) -> JsValue {
        JsValue::Num(x)
    }
}

mod ser;
pub use ser::{Er, Out};
pub mod prelude {
    pub use crate::{wasm_bindgen, JsValue};
}
