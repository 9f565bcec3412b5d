//! Every edit of a program: one character replaced, inserted or removed, the text cut off, at an
//! arbitrary place.
use crate::list::EDITS;
use crate::rt;

pub fn edited(i: usize, kind: u64) -> (Vec<u32>, bool) {
    let e = &EDITS[i];
    let s: Vec<u32> = e.s.chars().map(|c| c as u32).collect();
    let n = s.len();
    let at = rt::conc(rt::any(n as u32) as u64) as usize;
    let mut v: Vec<u32> = Vec::with_capacity(n + 8);
    for k in 0..at {
        v.push(s[k]);
    }
    match kind {
        0 => v.push(rt::any(128) as u32),
        1 => {
            v.push(rt::any(128) as u32);
            v.push(s[at]);
        }
        2 => (),
        _ => return (v, e.m),
    }
    for k in at + 1..n {
        v.push(s[k]);
    }
    (v, e.m)
}
