//! Lexical grammar (ECMAScript 2020, clause 11, with the Annex B numeric and string forms).
use super::uni;
use super::{E, R};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Eof,
    /// identifier names, reserved words included
    Word,
    Punct,
    Num,
    Str,
    /// a template piece: from a backtick or `}` to a backtick or `${`
    Tmpl,
    Regex,
}

#[derive(Clone)]
pub struct Tok {
    pub k: K,
    pub s: usize,
    pub e: usize,
    /// a line terminator (or a comment with one) before the token
    pub nl: bool,
    /// punctuator, or the reserved/contextual word ("" otherwise)
    pub w: &'static str,
    /// cooked value of words, strings and template pieces; pattern of regular expressions
    pub v: Vec<u8>,
    /// flags of regular expressions, raw text of template pieces
    pub v2: Vec<u8>,
    pub num: f64,
    /// a word containing an escape, a string containing any escape or line continuation
    pub esc: bool,
    /// a legacy octal number or escape: not in strict code
    pub octal: bool,
    /// a template piece that ends the template
    pub tail: bool,
    /// a template piece with an escape that only a tagged template may have
    pub badesc: bool,
}

const WORDS: [&str; 56] = [
    "if", "in", "do", "of", "as", "var", "for", "new", "try", "let", "get", "set", "this", "else", "case", "void",
    "with", "enum", "null", "true", "eval", "from", "async", "await", "break", "catch", "class", "const", "false",
    "super", "throw", "while", "yield", "delete", "export", "import", "public", "return", "static", "switch", "target",
    "typeof", "default", "extends", "finally", "package", "private", "continue", "debugger", "function", "arguments",
    "interface", "protected", "instanceof", "implements", "constructor",
];

/// The word's static spelling when it is one the grammar mentions.
fn intern(v: &[u8]) -> &'static str {
    let n = v.len();
    if n < 2 || n > 11 {
        return "";
    }
    let mut i = 0;
    while i < WORDS.len() {
        let w = WORDS[i];
        if w.len() == n && super::same(w.as_bytes(), v) {
            return w;
        }
        i += 1;
    }
    ""
}

pub fn push_cp(v: &mut Vec<u8>, c: u32) {
    if c < 0x80 {
        v.push(c as u8);
    } else if c < 0x800 {
        v.push((0xc0 | c >> 6) as u8);
        v.push((0x80 | c & 63) as u8);
    } else if c < 0x10000 {
        v.push((0xe0 | c >> 12) as u8);
        v.push((0x80 | c >> 6 & 63) as u8);
        v.push((0x80 | c & 63) as u8);
    } else {
        v.push((0xf0 | c >> 18) as u8);
        v.push((0x80 | c >> 12 & 63) as u8);
        v.push((0x80 | c >> 6 & 63) as u8);
        v.push((0x80 | c & 63) as u8);
    }
}

pub fn is_nl(c: u32) -> bool {
    c == 10 || c == 13 || c == 0x2028 || c == 0x2029
}
fn is_ws(c: u32) -> bool {
    c == 32 || c == 9 || c == 11 || c == 12 || c == 0xa0 || c == 0xfeff || (c >= 128 && uni::zs(c))
}
fn dec(c: u32) -> bool {
    c >= 48 && c <= 57
}
fn hexv(c: u32) -> u32 {
    if dec(c) {
        c - 48
    } else if c >= 97 && c <= 102 {
        c - 87
    } else if c >= 65 && c <= 70 {
        c - 55
    } else {
        99
    }
}

pub const EOF: u32 = 0xffff_ffff;

pub struct Lex<'a> {
    pub src: &'a [u32],
    pub p: usize,
}

impl<'a> Lex<'a> {
    fn at(&self, i: usize) -> u32 {
        if i < self.src.len() {
            self.src[i]
        } else {
            EOF
        }
    }
    fn id_start(&self, c: u32) -> R<bool> {
        if c < 128 {
            return Ok(c >= 97 && c <= 122 || c >= 65 && c <= 90 || c == 36 || c == 95);
        }
        if c == EOF {
            return Ok(false);
        }
        match uni::id_class(c) {
            uni::START => Ok(true),
            uni::UNKNOWN => Err(E::Unspec),
            _ => Ok(false),
        }
    }
    fn id_part(&self, c: u32) -> R<bool> {
        if c < 128 {
            return Ok(c >= 97 && c <= 122 || c >= 65 && c <= 90 || dec(c) || c == 36 || c == 95);
        }
        if c == EOF {
            return Ok(false);
        }
        if c == 0x200c || c == 0x200d {
            return Ok(true);
        }
        match uni::id_class(c) {
            uni::START | uni::PART => Ok(true),
            uni::UNKNOWN => Err(E::Unspec),
            _ => Ok(false),
        }
    }
    /// White space and comments; answers whether a line terminator was among them.
    fn skip(&mut self) -> R<bool> {
        let mut nl = false;
        loop {
            let c = self.at(self.p);
            if c == EOF {
                return Ok(nl);
            }
            if is_ws(c) {
                self.p += 1;
            } else if is_nl(c) {
                nl = true;
                self.p += 1;
            } else if c == 47 && self.at(self.p + 1) == 47 {
                self.p += 2;
                while self.p < self.src.len() && !is_nl(self.src[self.p]) {
                    self.p += 1;
                }
            } else if c == 47 && self.at(self.p + 1) == 42 {
                self.p += 2;
                loop {
                    let d = self.at(self.p);
                    if d == EOF {
                        return Err(E::Bad);
                    }
                    if d == 42 && self.at(self.p + 1) == 47 {
                        self.p += 2;
                        break;
                    }
                    if is_nl(d) {
                        nl = true;
                    }
                    self.p += 1;
                }
            } else if c == 60 && self.at(self.p + 1) == 33 && self.at(self.p + 2) == 45 && self.at(self.p + 3) == 45 {
                return Err(E::Unspec); // Annex B comment
            } else if c == 45
                && self.at(self.p + 1) == 45
                && self.at(self.p + 2) == 62
                && (nl || self.only_blank_before())
            {
                return Err(E::Unspec); // Annex B comment
            } else {
                return Ok(nl);
            }
        }
    }
    /// Only white space and comments precede the current position.
    fn only_blank_before(&self) -> bool {
        let mut l = Lex { src: &self.src[..self.p], p: 0 };
        // `-->` cannot start anything skip() would not pass over before this point
        loop {
            if l.p >= l.src.len() {
                return true;
            }
            let c = l.src[l.p];
            if is_ws(c) || is_nl(c) {
                l.p += 1;
            } else if c == 47 {
                let at = l.p;
                if l.skip().is_err() || l.p == at {
                    return false;
                }
            } else {
                return false;
            }
        }
    }

    fn tok(&self, k: K, s: usize, nl: bool) -> Tok {
        Tok {
            k,
            s,
            e: self.p,
            nl,
            w: "",
            v: Vec::new(),
            v2: Vec::new(),
            num: 0.0,
            esc: false,
            octal: false,
            tail: false,
            badesc: false,
        }
    }

    /// The next token; a `/` is read as an operator (see `regex`).
    pub fn next(&mut self) -> R<Tok> {
        let nl = self.skip()?;
        let s = self.p;
        let c = self.at(s);
        if c == EOF {
            return Ok(self.tok(K::Eof, s, nl));
        }
        if c == 34 || c == 39 {
            return self.string(s, nl, c);
        }
        if dec(c) || c == 46 && dec(self.at(s + 1)) {
            return self.number(s, nl);
        }
        if c == 96 {
            return self.template(s, nl);
        }
        let w = self.punct(c)?;
        if w.len() > 0 {
            self.p += w.len();
            let mut t = self.tok(K::Punct, s, nl);
            t.w = w;
            return Ok(t);
        }
        self.word(s, nl)
    }

    fn punct(&self, c: u32) -> R<&'static str> {
        let a = self.at(self.p + 1);
        let b = self.at(self.p + 2);
        let d = self.at(self.p + 3);
        let eq = a == 61;
        Ok(match c {
            40 => "(",
            41 => ")",
            44 => ",",
            58 => ":",
            59 => ";",
            91 => "[",
            93 => "]",
            123 => "{",
            125 => "}",
            126 => "~",
            63 => {
                if a == 63 || a == 46 && !dec(b) {
                    return Err(E::Unspec); // `??` and `?.`
                }
                "?"
            }
            46 => {
                if a == 46 && b == 46 {
                    "..."
                } else {
                    "."
                }
            }
            60 => {
                if a == 60 {
                    if b == 61 {
                        "<<="
                    } else {
                        "<<"
                    }
                } else if eq {
                    "<="
                } else {
                    "<"
                }
            }
            62 => {
                if a == 62 {
                    if b == 62 {
                        if d == 61 {
                            ">>>="
                        } else {
                            ">>>"
                        }
                    } else if b == 61 {
                        ">>="
                    } else {
                        ">>"
                    }
                } else if eq {
                    ">="
                } else {
                    ">"
                }
            }
            61 => {
                if eq {
                    if b == 61 {
                        "==="
                    } else {
                        "=="
                    }
                } else if a == 62 {
                    "=>"
                } else {
                    "="
                }
            }
            33 => {
                if eq {
                    if b == 61 {
                        "!=="
                    } else {
                        "!="
                    }
                } else {
                    "!"
                }
            }
            43 => {
                if a == 43 {
                    "++"
                } else if eq {
                    "+="
                } else {
                    "+"
                }
            }
            45 => {
                if a == 45 {
                    "--"
                } else if eq {
                    "-="
                } else {
                    "-"
                }
            }
            42 => {
                if a == 42 {
                    if b == 61 {
                        "**="
                    } else {
                        "**"
                    }
                } else if eq {
                    "*="
                } else {
                    "*"
                }
            }
            47 => {
                if eq {
                    "/="
                } else {
                    "/"
                }
            }
            37 => {
                if eq {
                    "%="
                } else {
                    "%"
                }
            }
            38 => {
                if a == 38 {
                    if b == 61 {
                        return Err(E::Unspec); // `&&=`
                    }
                    "&&"
                } else if eq {
                    "&="
                } else {
                    "&"
                }
            }
            124 => {
                if a == 124 {
                    if b == 61 {
                        return Err(E::Unspec); // `||=`
                    }
                    "||"
                } else if eq {
                    "|="
                } else {
                    "|"
                }
            }
            94 => {
                if eq {
                    "^="
                } else {
                    "^"
                }
            }
            35 => return Err(E::Unspec), // private names and hashbangs
            _ => "",
        })
    }

    /// `\u` escapes, positioned on the `u`; None when malformed (the position is then anywhere).
    fn uescape(&mut self) -> Option<u32> {
        self.p += 1;
        if self.at(self.p) == 123 {
            self.p += 1;
            let mut v: u32 = 0;
            let mut k = 0;
            loop {
                let c = self.at(self.p);
                if c == 125 {
                    self.p += 1;
                    return if k == 0 { None } else { Some(v) };
                }
                let h = hexv(c);
                if h > 15 {
                    return None;
                }
                v = v * 16 + h;
                if v > 0x10ffff {
                    return None;
                }
                k += 1;
                self.p += 1;
            }
        }
        let mut v = 0;
        for _ in 0..4 {
            let h = hexv(self.at(self.p));
            if h > 15 {
                return None;
            }
            v = v * 16 + h;
            self.p += 1;
        }
        Some(v)
    }

    fn word(&mut self, s: usize, nl: bool) -> R<Tok> {
        let mut v = Vec::with_capacity(16);
        let mut esc = false;
        loop {
            let first = self.p == s;
            let c = self.at(self.p);
            if c == 92 {
                esc = true;
                self.p += 1;
                if self.at(self.p) != 117 {
                    return Err(E::Bad);
                }
                let x = match self.uescape() {
                    Some(x) => x,
                    None => return Err(E::Bad),
                };
                let ok = if first { self.id_start(x)? } else { self.id_part(x)? };
                if !ok {
                    return Err(E::Bad);
                }
                push_cp(&mut v, x);
            } else {
                let ok = if first { self.id_start(c)? } else { self.id_part(c)? };
                if !ok {
                    break;
                }
                push_cp(&mut v, c);
                self.p += 1;
            }
        }
        if self.p == s {
            return Err(E::Bad);
        }
        let mut t = self.tok(K::Word, s, nl);
        t.w = intern(&v);
        t.v = v;
        t.esc = esc;
        Ok(t)
    }

    fn number(&mut self, s: usize, nl: bool) -> R<Tok> {
        let c = self.at(s);
        let a = self.at(s + 1);
        let mut octal = false;
        let val;
        let radix = if c == 48 {
            match a {
                120 | 88 => 16,
                111 | 79 => 8,
                98 | 66 => 2,
                _ => 0,
            }
        } else {
            0
        };
        if radix != 0 {
            self.p += 2;
            val = self.digits(radix)?;
        } else if c == 48 && dec(a) {
            // Annex B: legacy octal, or decimal when an 8 or 9 occurs
            octal = true;
            let mut q = s;
            let mut d = false;
            while dec(self.at(q)) {
                if self.at(q) > 55 {
                    d = true;
                }
                q += 1;
            }
            if d {
                val = self.decimal(s)?;
            } else {
                self.p += 1;
                val = self.digits(8)?;
            }
        } else {
            val = self.decimal(s)?;
        }
        let x = self.at(self.p);
        if x == 110 || x == 95 {
            return Err(E::Unspec); // BigInt, numeric separators
        }
        if x == 92 || dec(x) || self.id_start(x)? {
            return Err(E::Bad);
        }
        let mut t = self.tok(K::Num, s, nl);
        t.num = val;
        t.octal = octal;
        Ok(t)
    }

    /// An integer in a radix that is a power of two, rounded once to a double.
    fn digits(&mut self, radix: u32) -> R<f64> {
        let from = self.p;
        let mut v: u64 = 0;
        let mut big = false;
        loop {
            let h = hexv(self.at(self.p));
            if h >= radix {
                break;
            }
            if v >> 59 != 0 {
                big = true;
            }
            v = v.wrapping_mul(radix as u64).wrapping_add(h as u64);
            self.p += 1;
        }
        if self.p == from {
            return Err(E::Bad);
        }
        if !big {
            return Ok(v as f64);
        }
        // keep 64 leading bits and whether anything below them is set
        let per = if radix == 16 {
            4
        } else if radix == 8 {
            3
        } else {
            1
        };
        let mut m: u64 = 0;
        let mut e = 0;
        for q in from..self.p {
            let h = hexv(self.at(q));
            for b in (0..per).rev() {
                let bit = (h >> b & 1) as u64;
                if m >> 63 != 0 {
                    m |= bit;
                    e += 1;
                } else {
                    m = m << 1 | bit;
                }
            }
        }
        let mut f = m as f64;
        for _ in 0..e {
            f *= 2.0;
        }
        Ok(f)
    }

    fn decimal(&mut self, s: usize) -> R<f64> {
        let mut t = String::with_capacity(24);
        let mut m: u64 = 0;
        let mut nd = 0;
        let mut frac = 0;
        self.p = s;
        while dec(self.at(self.p)) {
            m = m.wrapping_mul(10).wrapping_add((self.at(self.p) - 48) as u64);
            nd += 1;
            t.push(self.at(self.p) as u8 as char);
            self.p += 1;
        }
        if self.at(self.p) == 46 {
            t.push('.');
            self.p += 1;
            while dec(self.at(self.p)) {
                m = m.wrapping_mul(10).wrapping_add((self.at(self.p) - 48) as u64);
                nd += 1;
                frac += 1;
                t.push(self.at(self.p) as u8 as char);
                self.p += 1;
            }
        }
        let mut exp: i64 = 0;
        let c = self.at(self.p);
        if c == 101 || c == 69 {
            t.push('e');
            self.p += 1;
            let mut neg = false;
            let c = self.at(self.p);
            if c == 43 || c == 45 {
                t.push(c as u8 as char);
                neg = c == 45;
                self.p += 1;
            }
            let from = self.p;
            while dec(self.at(self.p)) {
                if exp < 100_000 {
                    exp = exp * 10 + (self.at(self.p) - 48) as i64;
                }
                t.push(self.at(self.p) as u8 as char);
                self.p += 1;
            }
            if self.p == from {
                return Err(E::Bad);
            }
            if neg {
                exp = -exp;
            }
        }
        let e10 = exp - frac;
        if nd <= 15 && e10 >= -22 && e10 <= 22 {
            // both operands are exact, so the one operation rounds correctly
            let mut p: f64 = 1.0;
            for _ in 0..(if e10 < 0 { -e10 } else { e10 }) {
                p *= 10.0;
            }
            let f = m as f64;
            return Ok(if e10 < 0 { f / p } else { f * p });
        }
        Ok(t.parse::<f64>().unwrap())
    }

    /// A single escape, positioned after the backslash. None: malformed.
    fn escape(&mut self, out: &mut Vec<u8>, tmpl: bool, octal: &mut bool) -> R<Option<()>> {
        let c = self.at(self.p);
        match c {
            EOF => return Err(E::Bad),
            110 => out.push(10),
            116 => out.push(9),
            98 => out.push(8),
            118 => out.push(11),
            102 => out.push(12),
            114 => out.push(13),
            120 => {
                let h = hexv(self.at(self.p + 1));
                let l = hexv(self.at(self.p + 2));
                if h > 15 || l > 15 {
                    return Ok(None);
                }
                push_cp(out, h * 16 + l);
                self.p += 3;
                return Ok(Some(()));
            }
            117 => {
                let x = match self.uescape() {
                    Some(x) => x,
                    None => return Ok(None),
                };
                if x >= 0xdc00 && x < 0xe000 {
                    return Err(E::Unspec); // a lone surrogate has no UTF-8 form
                }
                if x >= 0xd800 && x < 0xdc00 {
                    if self.at(self.p) == 92 && self.at(self.p + 1) == 117 {
                        self.p += 1;
                        match self.uescape() {
                            Some(y) if y >= 0xdc00 && y < 0xe000 => {
                                push_cp(out, 0x10000 + (x - 0xd800) * 1024 + (y - 0xdc00));
                                return Ok(Some(()));
                            }
                            Some(_) => return Err(E::Unspec),
                            None => return Ok(None),
                        }
                    }
                    return Err(E::Unspec);
                }
                push_cp(out, x);
                return Ok(Some(()));
            }
            13 => {
                if self.at(self.p + 1) == 10 {
                    self.p += 1;
                }
            }
            10 | 0x2028 | 0x2029 => {}
            48..=57 => {
                if c == 48 && !dec(self.at(self.p + 1)) {
                    out.push(0);
                } else if tmpl {
                    return Ok(None);
                } else {
                    *octal = true;
                    if c > 55 {
                        out.push(c as u8);
                    } else {
                        // one to three octal digits, at most 377
                        let mut v = c - 48;
                        let mut k = 1;
                        let most = if c <= 51 { 3 } else { 2 };
                        while k < most {
                            let d = self.at(self.p + 1);
                            if d < 48 || d > 55 {
                                break;
                            }
                            v = v * 8 + d - 48;
                            self.p += 1;
                            k += 1;
                        }
                        push_cp(out, v);
                    }
                }
            }
            _ => push_cp(out, c),
        }
        self.p += 1;
        Ok(Some(()))
    }

    fn string(&mut self, s: usize, nl: bool, q: u32) -> R<Tok> {
        let mut v = Vec::with_capacity(16);
        let mut octal = false;
        let mut esc = false;
        self.p += 1;
        loop {
            let c = self.at(self.p);
            if c == EOF || c == 10 || c == 13 {
                return Err(E::Bad);
            }
            if c == q {
                self.p += 1;
                break;
            }
            self.p += 1;
            if c == 92 {
                esc = true;
                if self.escape(&mut v, false, &mut octal)?.is_none() {
                    return Err(E::Bad);
                }
            } else {
                push_cp(&mut v, c);
            }
        }
        let mut t = self.tok(K::Str, s, nl);
        t.v = v;
        t.esc = esc;
        t.octal = octal;
        Ok(t)
    }

    /// A template piece starting at the backtick or the `}` at `s`.
    pub fn template(&mut self, s: usize, nl: bool) -> R<Tok> {
        let mut v = Vec::with_capacity(16);
        let mut raw = Vec::with_capacity(16);
        let mut bad = false;
        let tail;
        self.p = s + 1;
        loop {
            let c = self.at(self.p);
            if c == EOF {
                return Err(E::Bad);
            }
            if c == 96 {
                self.p += 1;
                tail = true;
                break;
            }
            if c == 36 && self.at(self.p + 1) == 123 {
                self.p += 2;
                tail = false;
                break;
            }
            let from = self.p;
            self.p += 1;
            if c == 92 {
                let mut o = false;
                if self.escape(&mut v, true, &mut o)?.is_none() {
                    // what follows is read as ordinary characters
                    bad = true;
                    self.p = from + 2;
                }
            } else if c == 13 {
                if self.at(self.p) == 10 {
                    self.p += 1;
                }
                v.push(10);
            } else {
                push_cp(&mut v, c);
            }
            let mut q = from;
            while q < self.p {
                let d = self.at(q);
                if d == 13 {
                    if self.at(q + 1) == 10 && q + 1 < self.p {
                        q += 1;
                    }
                    raw.push(10);
                } else {
                    push_cp(&mut raw, d);
                }
                q += 1;
            }
        }
        let mut t = self.tok(K::Tmpl, s, nl);
        t.v = v;
        t.v2 = raw;
        t.tail = tail;
        t.badesc = bad;
        Ok(t)
    }

    /// The regular expression literal whose first slash is at `s`.
    pub fn regex(&mut self, s: usize, nl: bool) -> R<Tok> {
        let mut v = Vec::with_capacity(16);
        let mut f = Vec::with_capacity(8);
        let mut class = false;
        self.p = s + 1;
        let c = self.at(self.p);
        if c == 42 || c == 47 {
            return Err(E::Bad);
        }
        loop {
            let c = self.at(self.p);
            if c == EOF || is_nl(c) {
                return Err(E::Bad);
            }
            self.p += 1;
            if c == 47 && !class {
                break;
            }
            push_cp(&mut v, c);
            if c == 91 {
                class = true;
            } else if c == 93 {
                class = false;
            } else if c == 92 {
                let d = self.at(self.p);
                if d == EOF || is_nl(d) {
                    return Err(E::Bad);
                }
                push_cp(&mut v, d);
                self.p += 1;
            }
        }
        loop {
            let c = self.at(self.p);
            if c == 92 {
                return Err(E::Bad); // an early error in every case
            }
            if !self.id_part(c)? {
                break;
            }
            push_cp(&mut f, c);
            self.p += 1;
        }
        let mut t = self.tok(K::Regex, s, nl);
        t.v = v;
        t.v2 = f;
        Ok(t)
    }
}
