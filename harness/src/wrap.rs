//! The WebAssembly wrapper, over a stand-in for wasm_bindgen that keeps the values it is given.
use crate::{list, rt, tpl, WRAP};
use wasm_bindgen::JsValue;

#[path = "/repo/giron-wasm/src/lib.rs"]
mod wasm;

fn has(s: &[u8], what: &[u8]) -> bool {
    let mut i = 0;
    while i + what.len() <= s.len() {
        if &s[i..i + what.len()] == what {
            return true;
        }
        i += 1;
    }
    false
}

fn judge(src: &[u32], module: bool) {
    let got = if module { wasm::parse_module(crate::text(src, module)) } else { wasm::parse_script(crate::text(src, module)) };
    match crate::parse(src, module) {
        Ok(t) => {
            let mut o = wasm_bindgen::Out::new();
            let _ = serde::Serialize::serialize(&t, &mut o);
            rt::note(&o.b);
            match &got {
                JsValue::Json(b) => {
                    rt::reach(1);
                    rt::check(b[..] == o.b[..], WRAP)
                }
                _ => rt::check(false, WRAP),
            }
            std::mem::forget(t);
        }
        Err(e) => {
            rt::note(b"rejected");
            match &got {
                JsValue::Str(s) => {
                    rt::reach(2);
                    let at = [b'0' + e.line as u8];
                    let col = if e.col < 10 { vec![b'0' + e.col as u8] } else { vec![b'0' + (e.col / 10) as u8, b'0' + (e.col % 10) as u8] };
                    rt::check(e.line < 10 && e.col < 100 && has(s.as_bytes(), &at) && has(s.as_bytes(), &col), WRAP);
                }
                _ => rt::check(false, WRAP),
            }
            std::mem::forget(e);
        }
    }
    std::mem::forget(got);
}

#[no_mangle]
pub extern "C-unwind" fn h_wasm(i: u64) {
    let t = &list::T[i as usize];
    let (s, module) = tpl::source(t);
    judge(&s.v, module);
}

#[no_mangle]
pub extern "C-unwind" fn h_wraw(n: u64, module: u64) {
    let mut v: Vec<u32> = Vec::with_capacity(64);
    for _ in 0..n {
        v.push(rt::any(128) as u32);
    }
    judge(&v, module != 0);
}
