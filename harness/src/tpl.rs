//! Source templates. A template is the text of a program with holes:
//!   ⟨name⟩    an arbitrary alternative of a vocabulary, padded with blanks to the longest one
//!   ⟨!name⟩   the same without padding (the engine splits on the choice)
//!   ⟨name#3⟩  the same choice at every hole numbered 3
//!   ⟨name<#3⟩ ⟨name>#3⟩  what is before and after the □ of the alternative
//!   ⟨w⟩       any Unicode scalar value; ⟨v⟩ those of a dozen rows
//!   ⟨name⟩    with a name of `class`: an arbitrary character of the class
//!   ⟨{40⟩ … ⟨}⟩  what is between them, 40 times
//!   ⟪         where the offending token starts (`h_err`)
use crate::list::{alphabet, vocab, T};
use crate::rt;

/// An arbitrary character: (lowest, number of characters).
fn class(name: &[u8]) -> (u32, u32) {
    match name {
        b"c" => (0, 128),  // any ASCII character
        b"p" => (32, 95),  // any printable ASCII character
        b"a" => (97, 26),  // a lower-case letter
        b"d" => (48, 10),  // a digit
        b"o" => (48, 8),   // an octal digit
        b"l" => (128, 128), // a Latin-1 character above ASCII
        _ => (0, 0),
    }
}

/// Is a name a hole's? (a vocabulary has at most 64 alternatives, an alphabet 128 characters)
#[cfg(not(panic = "abort"))]
pub fn known(name: &[u8]) -> bool {
    let v = vocab(name).len();
    assert!(v <= 64, "{} alternatives", v);
    assert!(v == 0 || class(name).1 == 0 && alphabet(name).len() == 0);
    name == b"w" || name == b"v" || class(name).1 > 0 || alphabet(name).len() > 0 || v > 0
}

const ROWS: [u32; 12] = [0, 1, 3, 0x16, 0x18, 0x20, 0x21, 0x30, 0xfe, 0xff, 0x1d7, 0x10ff];

pub struct Src {
    pub v: Vec<u32>,
    /// the marked position
    pub mark: Option<usize>,
}

pub fn expand(s: &str) -> Src {
    let mut v: Vec<u32> = Vec::with_capacity(256);
    let mut mark = None;
    let mut idx: [Option<usize>; 10] = [None; 10];
    let mut it = s.char_indices();
    let mut again = it.clone();
    let mut times = 0;
    while let Some((i, c)) = it.next() {
        if c == '⟪' {
            mark = Some(v.len());
            continue;
        }
        if c != '⟨' {
            v.push(c as u32);
            continue;
        }
        let mut end = i;
        while let Some((j, d)) = it.next() {
            if d == '⟩' {
                end = j;
                break;
            }
        }
        let mut name = s[i + '⟨'.len_utf8()..end].as_bytes();
        if name[0] == b'{' {
            times = 0;
            for d in &name[1..] {
                times = times * 10 + (d - b'0') as usize;
            }
            again = it.clone();
            continue;
        }
        if name[0] == b'}' {
            times -= 1;
            if times > 0 {
                it = again.clone();
            }
            continue;
        }
        let mut exact = false;
        let mut slot = None;
        if name[0] == b'!' {
            exact = true;
            name = &name[1..];
        }
        if name.len() > 2 && name[name.len() - 2] == b'#' {
            slot = Some((name[name.len() - 1] - b'0') as usize);
            name = &name[..name.len() - 2];
        }
        let mut side = 0;
        let last = name[name.len() - 1];
        if last == b'<' || last == b'>' {
            side = last;
            name = &name[..name.len() - 1];
        }
        if name == b"w" {
            // any Unicode scalar value
            let plane = rt::conc(rt::any(17) as u64) as u32;
            let row = rt::conc(rt::any(256) as u64) as u32;
            rt::assume(plane > 0 || row < 0xd8 || row >= 0xe0);
            let c = plane << 16 | row << 8 | rt::any(256) as u32;
            v.push(c);
            continue;
        }
        if name == b"v" {
            // any character of the rows (blocks of 256 code points) that hold special ones
            let row = ROWS[rt::conc(rt::any(ROWS.len() as u32) as u64) as usize];
            v.push(row << 8 | rt::any(256) as u32);
            continue;
        }
        let (lo, n) = class(name);
        let letters = alphabet(name);
        if n > 0 || letters.len() > 0 {
            let size = if n > 0 { n as usize } else { letters.len() };
            let mut k = pick(size, slot, &mut idx);
            if exact {
                k = rt::conc(k as u64) as usize;
            }
            if n > 0 {
                v.push(lo + k as u32);
            } else {
                let mut t = [32u8; 128];
                let mut i = 0;
                while i < letters.len() {
                    t[i] = letters[i];
                    i += 1;
                }
                v.push(t[k & 127] as u32);
            }
            continue;
        }
        let l = vocab(name);
        let mut alts: Vec<Vec<u32>> = Vec::with_capacity(64);
        let mut w = 0;
        for x in l {
            let mut a: Vec<u32> = Vec::with_capacity(32);
            let mut on = side != b'>';
            for c in x.chars() {
                if side != 0 && c == '□' {
                    on = side == b'>';
                } else if on {
                    a.push(c as u32);
                }
            }
            if a.len() > w {
                w = a.len();
            }
            alts.push(a);
        }
        let mut k = pick(l.len(), slot, &mut idx);
        if exact {
            k = rt::conc(k as u64) as usize;
            for c in alts[k].iter() {
                v.push(*c);
            }
            continue;
        }
        for p in 0..w {
            // a constant table over the alternatives
            let mut t = [32u32; 64];
            for (q, x) in alts.iter().enumerate() {
                if p < x.len() {
                    t[q] = x[p];
                }
            }
            v.push(t[k & 63]);
        }
    }
    Src { v, mark }
}

fn pick(n: usize, slot: Option<usize>, idx: &mut [Option<usize>; 10]) -> usize {
    match slot {
        None => rt::any(n as u32) as usize,
        Some(s) => match idx[s] {
            Some(k) => k,
            None => {
                let k = rt::any(n as u32) as usize;
                idx[s] = Some(k);
                k
            }
        },
    }
}

/// The template's source, and whether it is a module.
pub fn source(t: &T) -> (Src, bool) {
    let module = match t.m {
        0 => false,
        1 => true,
        _ => rt::conc(rt::any(2) as u64) == 1,
    };
    (expand(t.s), module)
}
