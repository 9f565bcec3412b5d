//! Textual LLVM IR reader: globals eagerly, function bodies lazily on first call.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            t => t.size(),
        }
    }
    /// allocation size (ABI size rounded to alignment)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => {
                let offs = self.offsets();
                offs[offs.len() - 1]
            }
            Ty::Vec(n, t) => n * t.size(),
        }
    }
    /// field offsets plus the total size
    pub fn offsets(&self) -> Vec<u64> {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut v = vec![];
                for t in f {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    v.push(o);
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                v.push(o);
                v
            }
            _ => panic!("offsets of {:?}", self),
        }
    }
    /// the scalar leaves with byte offsets
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, Ty)>) {
        match self {
            Ty::Void | Ty::Meta => {}
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.leaves(base + i * t.size(), out)
                }
            }
            Ty::Struct(f, _) => {
                let o = self.offsets();
                for (i, t) in f.iter().enumerate() {
                    t.leaves(base + o[i], out)
                }
            }
            Ty::Int(w) if *w > 64 => {
                out.push((base, Ty::Int(64)));
                out.push((base + 8, Ty::Int(w - 64)));
            }
            Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.leaves(base + i * t.size(), out)
                }
            }
            t => out.push((base, t.clone())),
        }
    }
    /// the element type and number of lanes
    pub fn lane(&self) -> (Ty, usize) {
        match self {
            Ty::Vec(n, t) => ((**t).clone(), *n as usize),
            t => (t.clone(), 1),
        }
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as u32 * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            Ty::Int(w) if *w > 64 => 2,
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    R(u32),
    C(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    // comparisons (result width 1, operand width in the instruction)
    Eq,
    Ne,
    Ult,
    Ule,
    Slt,
    Sle,
    // floating point on 64-bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FOeq,
    FOlt,
    FOle,
    FUno,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FNeg,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Memcpy,
    Memset,
    Nop,
    Umax,
    Umin,
    Smax,
    Smin,
    UsubSat,
    UaddSat,
    Fshl,
    Fshr,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Ucmp,
    Scmp,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Abs,
    False,
    Trap,
    Ident,
    Fabs,
    Unsupported,
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub target: u32, // instruction index
    pub bb: u32,
    pub moves: Box<[(Op, u32)]>,
}

#[derive(Debug)]
pub enum Inst {
    Bin(B, u32, u32, Op, Op),
    Cast(Cast, u32, u32, u32, Op), // from bits, to bits, dst
    Select(u32, Op, Op, Op, u32),  // dst,c,a,b,width
    Gep(u32, Op, i64, Box<[(Op, u32, u64)]>),
    Load(u32, u32, Op, u64), // dst, bits, addr, offset
    Store(u32, Op, Op, u64), // bits, val, addr, offset
    Alloca(u32, u64, u64, Op),
    Call(Box<CallI>),
    Intr(Intr, u32, u32, Box<[Op]>, u32), // kind, width, dst, args, operand width
    Br(Edge),
    CondBr(Op, Box<(Edge, Edge)>),
    Switch(u32, Op, Box<(Vec<(u64, Edge)>, Edge)>),
    Ret(Box<[Op]>),
    Move(u32, Op),
    Rmw(u8, u32, u32, Op, Op), // op, bits, dst, addr, val
    Cmpxchg(u32, u32, Op, Op, Op),
    Wide(WOp, u32, u32, [Op; 2], [Op; 2]), // 128-bit op: width, dst
    Unreachable,
    Unsupported(String),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum WOp {
    Add,
    Sub,
    Mul,
    Shl,
    LShr,
    And,
    Or,
    Xor,
    UDiv,
    URem,
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    SExt, // from bits in width, 64->128
    Ctlz,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ext(String),
    Ind(Op),
}
#[derive(Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Box<[Op]>,
    pub dst: u32,
    pub ndst: u32,
    pub normal: Option<Edge>, // invoke
    pub ret_bits: u32,
}

pub struct Func {
    pub name: String,
    pub nslots: u32,
    pub nparams: u32,
    pub insts: Vec<Inst>,
    pub nblocks: u32,
}

pub struct FuncSrc {
    pub name: String,
    pub pretty: String,
    pub header: (usize, usize),
    pub body: (usize, usize),
}

pub struct Module {
    pub text: &'static str,
    pub funcs: Vec<FuncSrc>,
    pub fidx: HashMap<&'static str, u32>,
    pub types: HashMap<String, Ty>,
    pub gaddr: HashMap<&'static str, u64>,
    pub cdata: Vec<u8>, // constants, at CONST_BASE
    pub mdata: Vec<u8>, // mutable globals, at GMUT_BASE
}

pub const FN_BASE: u64 = 0x0000_0009_0000_0000;
pub const CONST_BASE: u64 = 0x0000_0001_0000_0000;
pub const GMUT_BASE: u64 = 0x0000_0002_0000_0000;
pub const STACK_BASE: u64 = 0x0000_0003_0000_0000;
pub const HEAP_BASE: u64 = 0x0000_0004_0000_0000;

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Loc(&'a str),
    Glob(&'a str),
    Num(&'a str),
    Word(&'a str),
    Str(Vec<u8>),
    Meta,
    Attr,
    P(char),
    Dots,
}

pub fn lex<'a>(s: &'a str) -> Vec<Tok<'a>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::with_capacity(32);
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let st;
                let en;
                if b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && idc(b[j]) {
                        j += 1
                    }
                    en = j;
                    i = j;
                }
                v.push(if c == b'%' { Tok::Loc(&s[st..en]) } else { Tok::Glob(&s[st..en]) });
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                let mut o = vec![];
                while b[j] != b'"' {
                    if b[j] == b'\\' {
                        if b[j + 1] == b'\\' {
                            o.push(b'\\');
                            j += 2;
                        } else {
                            o.push(u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap());
                            j += 3;
                        }
                    } else {
                        o.push(b[j]);
                        j += 1;
                    }
                }
                i = j + 1;
                v.push(Tok::Str(o));
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                v.push(Tok::Word(&s[i..j + 1]));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j])) {
                    j += 1
                }
                if j < b.len() && b[j] == b'{' {
                    while b[j] != b'}' {
                        j += 1
                    }
                    j += 1;
                }
                i = j;
                v.push(Tok::Meta);
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1
                }
                i = j;
                v.push(Tok::Attr);
            }
            b'.' if s[i..].starts_with("...") => {
                v.push(Tok::Dots);
                i += 3;
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || (b[j] == b'+' && b[j - 1] == b'e')) {
                    j += 1
                }
                v.push(Tok::Num(&s[i..j]));
                i = j;
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                v.push(Tok::Word(&s[i..j]));
                i = j;
            }
            c => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

pub struct P<'a, 'm> {
    t: Vec<Tok<'a>>,
    i: usize,
    m: &'m Module,
}

type R<T> = Result<T, String>;

impl<'a, 'm> P<'a, 'm> {
    fn new(s: &'a str, m: &'m Module) -> Self {
        P { t: lex(s), i: 0, m }
    }
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, self.peek()))
        }
    }
    fn word(&self) -> Option<&'a str> {
        match self.peek() {
            Some(Tok::Word(w)) => Some(w),
            _ => None,
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn next(&mut self) -> R<Tok<'a>> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn skip_parens(&mut self) {
        if self.isp('(') {
            let mut d = 0;
            while self.i < self.t.len() {
                match self.t[self.i] {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => {
                        d -= 1;
                        if d == 0 {
                            self.i += 1;
                            return;
                        }
                    }
                    _ => {}
                }
                self.i += 1;
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "fp128" | "label") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Loc(n)) => self.m.types.contains_key(*n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::Word(w) => Ok(match w {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "half" => Ty::Int(16),
                "fp128" => Ty::Int(128),
                "double" => Ty::F64,
                "metadata" | "label" => Ty::Meta,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                _ => return Err(format!("type {}", w)),
            }),
            Tok::Loc(n) => self.m.types.get(n).cloned().ok_or(format!("type %{}", n)),
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eatw("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.exp(']')?;
                Ok(Ty::Arr(n, Box::new(t)))
            }
            Tok::P('{') => {
                let f = self.fields('}')?;
                Ok(Ty::Struct(f, false))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let f = self.fields('}')?;
                    self.exp('>')?;
                    Ok(Ty::Struct(f, true))
                } else {
                    let n = self.num()?;
                    if !self.eatw("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ok(Ty::Vec(n, Box::new(t)))
                }
            }
            t => Err(format!("type {:?}", t)),
        }
    }
    fn fields(&mut self, close: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(close) {
                return Ok(v);
            }
            self.exp(',')?;
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next()? {
            Tok::Num(n) => n.parse::<i64>().map(|x| x as u64).or_else(|_| n.parse::<u64>()).map_err(|_| format!("num {}", n)),
            t => Err(format!("num {:?}", t)),
        }
    }
    fn gval(&self, n: &str) -> R<u64> {
        if let Some(a) = self.m.gaddr.get(n) {
            return Ok(*a);
        }
        if let Some(f) = self.m.fidx.get(n) {
            return Ok(FN_BASE + *f as u64 * 16);
        }
        Ok(0) // extern (weak) symbols
    }
    /// constant of scalar type -> bits; aggregates -> leaves appended
    fn konst(&mut self, ty: &Ty, out: &mut Vec<u64>) -> R<()> {
        let n = ty.nslots() as usize;
        match self.peek().cloned() {
            Some(Tok::Word("zeroinitializer")) | Some(Tok::Word("undef")) | Some(Tok::Word("poison")) | Some(Tok::Word("null")) | Some(Tok::Word("none")) => {
                self.i += 1;
                for _ in 0..n {
                    out.push(0)
                }
                Ok(())
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => {
                let mut closers = vec![];
                loop {
                    if self.eat('{') {
                        closers.push('}')
                    } else if self.eat('[') {
                        closers.push(']')
                    } else if closers.is_empty() && self.eat('<') {
                        closers.push('>')
                    } else {
                        break;
                    }
                    if closers.len() == 1 && closers[0] == '>' {
                        continue;
                    }
                    break;
                }
                let last = *closers.last().unwrap();
                if !self.isp(last) {
                    loop {
                        let t = self.ty()?;
                        self.konst(&t, out)?;
                        if !self.eat(',') {
                            break;
                        }
                    }
                }
                while let Some(c) = closers.pop() {
                    self.exp(c)?;
                }
                Ok(())
            }
            Some(Tok::Str(s)) => {
                self.i += 1;
                for b in s {
                    out.push(b as u64)
                }
                Ok(())
            }
            Some(Tok::Word("splat")) => {
                self.i += 1;
                self.exp('(')?;
                let t = self.ty()?;
                let mut v = vec![];
                self.konst(&t, &mut v)?;
                self.exp(')')?;
                for _ in 0..n {
                    out.push(v[0])
                }
                Ok(())
            }
            _ => {
                if let Ty::Int(w) = ty {
                    if *w > 64 {
                        if let Tok::Num(s) = self.next()? {
                            let v: i128 = s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("wide {}", s))?;
                            out.push(v as u64);
                            out.push(((v >> 64) as u64) & if *w == 128 { !0 } else { (1u64 << (w - 64)) - 1 });
                            return Ok(());
                        }
                        return Err("wide const".into());
                    }
                }
                let v = self.scalar_const(ty)?;
                out.push(v);
                Ok(())
            }
        }
    }
    fn scalar_const(&mut self, ty: &Ty) -> R<u64> {
        let m = |v: u64, b: u32| if b >= 64 { v } else { v & ((1u64 << b) - 1) };
        match self.next()? {
            Tok::Num(s) => match ty {
                Ty::F64 | Ty::F32 => {
                    let f: f64 = match s {
                        "+inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "+qnan" => f64::NAN,
                        "-qnan" => -f64::NAN,
                        _ => {
                            if let Some(h) = s.strip_prefix("0x") {
                                f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("fp {}", s))?)
                            } else {
                                s.parse().map_err(|_| format!("fp {}", s))?
                            }
                        }
                    };
                    Ok(if *ty == Ty::F64 { f.to_bits() } else { (f as f32).to_bits() as u64 })
                }
                _ => {
                    let v = s.parse::<i64>().map(|x| x as u64).or_else(|_| s.parse::<u64>()).map_err(|_| format!("int {} as {:?}", s, ty))?;
                    Ok(m(v, ty.bits()))
                }
            },
            Tok::Word("true") => Ok(1),
            Tok::Word("false") => Ok(0),
            Tok::Word("null") | Tok::Word("undef") | Tok::Word("poison") | Tok::Word("zeroinitializer") => Ok(0),
            Tok::Word(w) if w.starts_with("f0x") => Ok(u64::from_str_radix(&w[3..], 16).map_err(|_| format!("fp {}", w))?),
            Tok::Glob(n) => self.gval(n),
            Tok::Word("inttoptr") | Tok::Word("ptrtoint") | Tok::Word("ptrtoaddr") | Tok::Word("bitcast") | Tok::Word("trunc") => {
                self.exp('(')?;
                let t = self.ty()?;
                let v = self.scalar_const(&t)?;
                if !self.eatw("to") {
                    return Err("to".into());
                }
                let t2 = self.ty()?;
                self.exp(')')?;
                Ok(m(v, t2.bits()))
            }
            Tok::Word("getelementptr") => {
                while !self.isp('(') {
                    self.next()?;
                    if self.peek().is_none() {
                        return Err("gep".into());
                    }
                    // inrange(...) carries parentheses of its own
                    if let Some(Tok::Word("inrange")) = self.peek() {
                        self.i += 1;
                        self.skip_parens();
                    }
                }
                self.exp('(')?;
                let t = self.ty()?;
                self.exp(',')?;
                let pt = self.ty()?;
                let mut v = self.scalar_const(&pt)?;
                let mut cur = t;
                let mut first = true;
                while self.eat(',') {
                    let it = self.ty()?;
                    let k = self.scalar_const(&it)?;
                    let k = if it.bits() == 32 { k as u32 as i32 as i64 as u64 } else { k };
                    if first {
                        v = v.wrapping_add(k.wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Arr(_, e) => {
                                v = v.wrapping_add(k.wrapping_mul(e.size()));
                                cur = *e;
                            }
                            Ty::Struct(f, _) => {
                                v = v.wrapping_add(cur.offsets()[k as usize]);
                                cur = f[k as usize].clone();
                            }
                            _ => return Err("gep const".into()),
                        }
                    }
                }
                self.exp(')')?;
                Ok(v)
            }
            Tok::Word(op @ ("add" | "sub")) => {
                while !self.isp('(') {
                    self.next()?;
                }
                self.exp('(')?;
                let t = self.ty()?;
                let a = self.scalar_const(&t)?;
                self.exp(',')?;
                let t2 = self.ty()?;
                let b = self.scalar_const(&t2)?;
                self.exp(')')?;
                Ok(m(if op == "add" { a.wrapping_add(b) } else { a.wrapping_sub(b) }, t.bits()))
            }
            t => Err(format!("const {:?} of {:?}", t, ty)),
        }
    }
    /// skip parameter / return attributes up to a value or a type
    fn skip_attrs(&mut self, want_type: bool) {
        loop {
            if want_type && self.is_type_start() {
                return;
            }
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if !want_type
                        && matches!(
                            *w,
                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "getelementptr" | "splat" | "add" | "sub" | "trunc" | "bitcast"
                        )
                    {
                        return;
                    }
                    let w = *w;
                    self.i += 1;
                    if w == "align" {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                    if self.isp('(') {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
}

struct FB<'a, 'm> {
    m: &'m Module,
    slots: HashMap<&'a str, (u32, u32)>,
    n: u32,
    insts: Vec<Inst>,
}

impl<'a, 'm> FB<'a, 'm> {
    fn slot(&mut self, n: &'a str, ty: &Ty) -> u32 {
        if let Some((s, _)) = self.slots.get(n) {
            return *s;
        }
        let k = ty.nslots();
        let s = self.n;
        self.n += k;
        self.slots.insert(n, (s, k));
        s
    }
    fn tmp(&mut self) -> u32 {
        self.n += 1;
        self.n - 1
    }
    /// operand list (one per slot)
    fn vals(&mut self, p: &mut P<'a, 'm>, ty: &Ty) -> R<Vec<Op>> {
        if let Some(Tok::Loc(n)) = p.peek().cloned() {
            p.i += 1;
            let s = self.slot(n, ty);
            return Ok((0..ty.nslots()).map(|k| Op::R(s + k)).collect());
        }
        let mut v = vec![];
        p.konst(ty, &mut v)?;
        Ok(v.into_iter().map(Op::C).collect())
    }
    fn val(&mut self, p: &mut P<'a, 'm>, ty: &Ty) -> R<Op> {
        let v = self.vals(p, ty)?;
        if v.len() != 1 {
            return Err(format!("scalar operand of {:?}", ty));
        }
        Ok(v[0])
    }
}

enum PendEdge {
    Br(usize),
    T(usize),
    F(usize),
    Sw(usize, usize),
    SwD(usize),
    Inv(usize),
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ir").into_boxed_str());
        let mut m = Module { text, funcs: vec![], fidx: HashMap::new(), types: HashMap::new(), gaddr: HashMap::new(), cdata: vec![0; 16], mdata: vec![0; 16] };
        let mut pos = 0usize;
        let mut lastcomment: &str = "";
        let mut globs: Vec<(&'static str, &'static str, bool, u64)> = vec![]; // name, rest (type init), mutable
        let mut in_fn = false;
        let mut body_start = 0;
        while pos < text.len() {
            let end = text[pos..].find('\n').map(|k| pos + k).unwrap_or(text.len());
            let line = &text[pos..end];
            if in_fn {
                if line == "}" {
                    in_fn = false;
                    let f = m.funcs.last_mut().unwrap();
                    f.body = (body_start, pos);
                }
            } else if line.starts_with("; ") {
                if !line.starts_with("; Function Attrs") {
                    lastcomment = &line[2..];
                }
            } else if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let name: &'static str = if line.as_bytes()[at + 1] == b'"' {
                    let e = line[at + 2..].find('"').unwrap();
                    &line[at + 2..at + 2 + e]
                } else {
                    let e = line[at + 1..].find('(').unwrap();
                    &line[at + 1..at + 1 + e]
                };
                let idx = m.funcs.len() as u32;
                m.fidx.insert(name, idx);
                m.funcs.push(FuncSrc { name: name.to_string(), pretty: if lastcomment.is_empty() { name.to_string() } else { lastcomment.to_string() }, header: (pos, end), body: (0, 0) });
                lastcomment = "";
                in_fn = true;
                body_start = end + 1;
            } else if line.starts_with('%') {
                // %T = type { ... }
                if let Some(k) = line.find(" = type ") {
                    let n = line[1..k].trim_matches('"').to_string();
                    let t = {
                        let mut p = P::new(&line[k + 8..], &m);
                        p.ty()
                    };
                    if let Ok(t) = t {
                        m.types.insert(n, t);
                    }
                }
            } else if line.starts_with('@') {
                let (name, rest): (&'static str, &'static str) = if line.as_bytes()[1] == b'"' {
                    let e = line[2..].find('"').unwrap();
                    (&line[2..2 + e], &line[2 + e + 1..])
                } else {
                    let e = line.find(' ').unwrap();
                    (&line[1..e], &line[e..])
                };
                if rest.starts_with(" = ") {
                    globs.push((name, rest, false, 0));
                }
            }
            pos = end + 1;
        }
        // layout
        let mut inits: Vec<(u64, &'static str, &'static str, Ty)> = vec![];
        for g in globs.iter() {
            let rest = g.1;
            let (k, mutable) = match (rest.find(" constant "), rest.find(" global ")) {
                (Some(a), Some(b)) if a < b => (a + 10, false),
                (Some(a), None) => (a + 10, false),
                (_, Some(b)) => (b + 8, true),
                _ => continue,
            };
            let ext = rest[..k].contains("external") || rest[..k].contains("extern_weak");
            let body = &rest[k..];
            // restrict lexing to the line; strings may contain anything but quotes are escaped
            let (ty, al) = {
                let mut p = P::new(body, &m);
                let ty = match p.ty() {
                    Ok(t) => t,
                    Err(_) => continue,
                };
                let mut al = ty.align();
                let n = p.t.len();
                for i in 0..n {
                    if p.t[i] == Tok::Word("align") {
                        if let Some(Tok::Num(x)) = p.t.get(i + 1) {
                            al = x.parse().unwrap_or(al);
                        }
                    }
                }
                (ty, al.max(1))
            };
            if ext {
                m.gaddr.insert(g.0, 0);
                continue;
            }
            let (base, buf) = if mutable { (GMUT_BASE, &mut m.mdata) } else { (CONST_BASE, &mut m.cdata) };
            let mut o = buf.len() as u64;
            o = (o + al - 1) / al * al;
            buf.resize((o + ty.size() + 8) as usize, 0);
            m.gaddr.insert(g.0, base + o);
            inits.push((base + o, g.0, body, ty));
        }
        // initialisers
        let mut writes: Vec<(u64, Vec<u8>)> = vec![];
        for (addr, name, body, ty) in inits {
            let mut p = P::new(body, &m);
            let _ = p.ty();
            let mut vals = vec![];
            if let Err(e) = p.konst(&ty, &mut vals) {
                eprintln!("global {}: {}", name, e);
                continue;
            }
            let mut lv = vec![];
            ty.leaves(0, &mut lv);
            for ((o, t), v) in lv.iter().zip(vals.iter()) {
                let n = t.store_size() as usize;
                writes.push((addr + o, v.to_le_bytes()[..n].to_vec()));
            }
        }
        for (a, b) in writes {
            let (buf, o) = if a >= GMUT_BASE { (&mut m.mdata, a - GMUT_BASE) } else { (&mut m.cdata, a - CONST_BASE) };
            buf[o as usize..o as usize + b.len()].copy_from_slice(&b);
        }
        m
    }

    pub fn parse_func(&self, idx: u32) -> R<Func> {
        let fs = &self.funcs[idx as usize];
        let header = &self.text[fs.header.0..fs.header.1];
        let body = &self.text[fs.body.0..fs.body.1];
        let mut fb = FB { m: self, slots: HashMap::new(), n: 0, insts: vec![] };
        // params
        let mut nparams = 0;
        let mut unnamed = 0;
        {
            let at = header.find('@').unwrap();
            let mut p = P::new(&header[at..], self);
            p.next()?;
            p.exp('(')?;
            if !p.eat(')') {
                loop {
                    if p.peek() == Some(&Tok::Dots) {
                        p.i += 1;
                    } else {
                        let t = p.ty()?;
                        p.skip_attrs(false);
                        match p.next()? {
                            Tok::Loc(n) => {
                                if n.bytes().all(|c| c.is_ascii_digit()) {
                                    unnamed += 1
                                }
                                fb.slot(n, &t);
                            }
                            x => return Err(format!("param {:?}", x)),
                        }
                        nparams += t.nslots();
                    }
                    if p.eat(')') {
                        break;
                    }
                    p.exp(',')?;
                }
            }
        }
        let entry_label: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
        // logical lines grouped in blocks
        let mut blocks: Vec<(&str, Vec<String>)> = vec![];
        let mut lines = body.lines().peekable();
        while let Some(l) = lines.next() {
            if l.is_empty() || l.trim_start().starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                let e = l.find(':').ok_or("label")?;
                blocks.push((l[..e].trim_matches('"'), vec![]));
                continue;
            }
            if blocks.is_empty() {
                blocks.push((entry_label, vec![]));
            }
            let tl = l.trim_start();
            if tl.starts_with("filter ") || tl.starts_with("catch ") || tl == "cleanup" {
                continue;
            }
            let mut s = tl.to_string();
            if tl.starts_with("switch ") && !tl.contains(']') {
                for l2 in lines.by_ref() {
                    s.push(' ');
                    s.push_str(l2.trim());
                    if l2.trim_start().starts_with(']') {
                        break;
                    }
                }
            }
            if tl.starts_with("invoke ") || tl.contains(" = invoke ") || tl.contains("tail invoke ") {
                if let Some(l2) = lines.next() {
                    s.push(' ');
                    s.push_str(l2.trim());
                }
            }
            blocks.last_mut().unwrap().1.push(s);
        }
        let blocks: &'static Vec<(&str, Vec<String>)> = Box::leak(Box::new(blocks.into_iter().map(|(a, b)| (&*Box::leak(a.to_string().into_boxed_str()), b)).collect()));
        let mut bstart: HashMap<&str, (u32, u32)> = HashMap::new();
        let mut phis: HashMap<(&str, &str), Vec<(Op, u32)>> = HashMap::new(); // (to, from)
        let mut pend: Vec<(PendEdge, &str, &str)> = vec![]; // edge, from, to
        for (bi, (label, ls)) in blocks.iter().enumerate() {
            bstart.insert(label, (fb.insts.len() as u32, bi as u32));
            for l in ls {
                let mut p = P::new(l, self);
                self.inst(&mut fb, &mut p, label, &mut phis, &mut pend, l)?;
            }
        }
        let none = Edge { target: 0, bb: 0, moves: Box::new([]) };
        let _ = none;
        for (pe, from, to) in pend {
            let (t, b) = *bstart.get(to).ok_or_else(|| format!("no block {}", to))?;
            let moves: Box<[(Op, u32)]> = phis.get(&(to, from)).cloned().unwrap_or_default().into_boxed_slice();
            let e = Edge { target: t, bb: b, moves };
            match pe {
                PendEdge::Br(i) => fb.insts[i] = Inst::Br(e),
                PendEdge::T(i) => {
                    if let Inst::CondBr(_, x) = &mut fb.insts[i] {
                        x.0 = e
                    }
                }
                PendEdge::F(i) => {
                    if let Inst::CondBr(_, x) = &mut fb.insts[i] {
                        x.1 = e
                    }
                }
                PendEdge::Sw(i, k) => {
                    if let Inst::Switch(_, _, x) = &mut fb.insts[i] {
                        x.0[k].1 = e
                    }
                }
                PendEdge::SwD(i) => {
                    if let Inst::Switch(_, _, x) = &mut fb.insts[i] {
                        x.1 = e
                    }
                }
                PendEdge::Inv(i) => {
                    if let Inst::Call(c) = &mut fb.insts[i] {
                        c.normal = Some(e)
                    }
                }
            }
        }
        Ok(Func { name: fs.name.clone(), nslots: fb.n, nparams, insts: fb.insts, nblocks: blocks.len() as u32 })
    }

    fn inst<'a>(
        &'a self,
        fb: &mut FB<'a, 'a>,
        p: &mut P<'a, 'a>,
        label: &'a str,
        phis: &mut HashMap<(&'a str, &'a str), Vec<(Op, u32)>>,
        pend: &mut Vec<(PendEdge, &'a str, &'a str)>,
        line: &'a str,
    ) -> R<()> {
        let mut dst: Option<&'a str> = None;
        if let Some(Tok::Loc(n)) = p.peek().cloned() {
            if p.t.get(1) == Some(&Tok::P('=')) {
                dst = Some(n);
                p.i += 2;
            }
        }
        let dummy = || Edge { target: 0, bb: 0, moves: Box::new([]) };
        let lab = |p: &mut P<'a, 'a>| -> R<&'a str> {
            if !p.eatw("label") {
                return Err("label".into());
            }
            match p.next()? {
                Tok::Loc(n) => Ok(n),
                _ => Err("label".into()),
            }
        };
        let mut op = match p.next()? {
            Tok::Word(w) => w,
            t => return Err(format!("inst {:?}", t)),
        };
        if matches!(op, "tail" | "musttail" | "notail") {
            op = match p.next()? {
                Tok::Word(w) => w,
                t => return Err(format!("inst {:?}", t)),
            };
        }
        macro_rules! unsup {
            () => {{
                if let Some(d) = dst {
                    // reserve a generous slot range so that later uses resolve
                    if !fb.slots.contains_key(d) {
                        let s = fb.n;
                        fb.n += 64;
                        fb.slots.insert(d, (s, 64));
                    }
                }
                fb.insts.push(Inst::Unsupported(line.to_string()));
                return Ok(());
            }};
        }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" => {
                p.skip_attrs(true);
                let t = p.ty()?;
                let a = fb.vals(p, &t)?;
                p.exp(',')?;
                let b = fb.vals(p, &t)?;
                let d = fb.slot(dst.unwrap(), &t);
                let (t, lanes) = t.lane();
                if t.nslots() == 2 {
                    if lanes != 1 {
                        unsup!()
                    }
                    let w = match op {
                        "add" => WOp::Add,
                        "sub" => WOp::Sub,
                        "mul" => WOp::Mul,
                        "shl" => WOp::Shl,
                        "lshr" => WOp::LShr,
                        "and" => WOp::And,
                        "or" => WOp::Or,
                        "xor" => WOp::Xor,
                        "udiv" => WOp::UDiv,
                        "urem" => WOp::URem,
                        _ => unsup!(),
                    };
                    fb.insts.push(Inst::Wide(w, t.bits(), d, [a[0], a[1]], [b[0], b[1]]));
                    return Ok(());
                }
                if t == Ty::F32 {
                    unsup!()
                }
                let k = match op {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "fadd" => B::FAdd,
                    "fsub" => B::FSub,
                    "fmul" => B::FMul,
                    _ => B::FDiv,
                };
                for i in 0..lanes {
                    fb.insts.push(Inst::Bin(k, t.bits(), d + i as u32, a[i], b[i]));
                }
            }
            "icmp" | "fcmp" => {
                while matches!(p.word(), Some("samesign" | "nnan" | "ninf" | "nsz" | "fast" | "arcp" | "contract" | "afn" | "reassoc")) {
                    p.i += 1;
                }
                let pred = p.word().ok_or("pred")?;
                p.i += 1;
                let t = p.ty()?;
                let a = fb.vals(p, &t)?;
                p.exp(',')?;
                let b = fb.vals(p, &t)?;
                let d = match &t {
                    Ty::Vec(n, _) => fb.slot(dst.unwrap(), &Ty::Vec(*n, Box::new(Ty::Int(1)))),
                    _ => fb.slot(dst.unwrap(), &Ty::Int(1)),
                };
                let (t, lanes) = t.lane();
                if t.nslots() == 2 {
                    if lanes != 1 {
                        unsup!()
                    }
                    let w = match pred {
                        "eq" => WOp::Eq,
                        "ne" => WOp::Ne,
                        "ult" => WOp::Ult,
                        "ule" => WOp::Ule,
                        "ugt" => WOp::Ugt,
                        "uge" => WOp::Uge,
                        _ => unsup!(),
                    };
                    fb.insts.push(Inst::Wide(w, t.bits(), d, [a[0], a[1]], [b[0], b[1]]));
                    return Ok(());
                }
                let (k, sw) = match pred {
                    "eq" => (B::Eq, false),
                    "ne" => (B::Ne, false),
                    "ult" => (B::Ult, false),
                    "ule" => (B::Ule, false),
                    "ugt" => (B::Ult, true),
                    "uge" => (B::Ule, true),
                    "slt" => (B::Slt, false),
                    "sle" => (B::Sle, false),
                    "sgt" => (B::Slt, true),
                    "sge" => (B::Sle, true),
                    "oeq" => (B::FOeq, false),
                    "olt" => (B::FOlt, false),
                    "ole" => (B::FOle, false),
                    "ogt" => (B::FOlt, true),
                    "oge" => (B::FOle, true),
                    "uno" => (B::FUno, false),
                    _ => unsup!(),
                };
                for i in 0..lanes {
                    let (x, y) = if sw { (b[i], a[i]) } else { (a[i], b[i]) };
                    fb.insts.push(Inst::Bin(k, t.bits(), d + i as u32, x, y));
                }
            }
            "fneg" => {
                p.skip_attrs(true);
                let t = p.ty()?;
                let a = fb.val(p, &t)?;
                let d = fb.slot(dst.unwrap(), &t);
                fb.insts.push(Inst::Cast(Cast::FNeg, 64, 64, d, a));
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "addrspacecast" | "fpext" | "fptrunc" => {
                p.skip_attrs(true);
                let t = p.ty()?;
                let a = fb.vals(p, &t)?;
                if !p.eatw("to") {
                    return Err("to".into());
                }
                let t2 = p.ty()?;
                let d = fb.slot(dst.unwrap(), &t2);
                if op == "fpext" || op == "fptrunc" {
                    unsup!()
                }
                if matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..)) {
                    let ((e, n), (e2, n2)) = (t.lane(), t2.lane());
                    if n == n2 && n > 1 && e.nslots() == 1 && e2.nslots() == 1 {
                        let k = match op {
                            "trunc" => Some(Cast::Trunc),
                            "zext" => Some(Cast::ZExt),
                            "sext" => Some(Cast::SExt),
                            "bitcast" | "ptrtoint" | "inttoptr" if e.bits() == e2.bits() => None,
                            _ => unsup!(),
                        };
                        for i in 0..n {
                            fb.insts.push(match k {
                                Some(k) => Inst::Cast(k, e.bits(), e2.bits(), d + i as u32, a[i]),
                                None => Inst::Move(d + i as u32, a[i]),
                            });
                        }
                        return Ok(());
                    }
                    // a reinterpretation: pieces of at most 64 bits on both sides
                    if op != "bitcast" {
                        unsup!()
                    }
                    let (mut l1, mut l2) = (vec![], vec![]);
                    t.leaves(0, &mut l1);
                    t2.leaves(0, &mut l2);
                    let (mut at, mut k) = (0u32, 0usize);
                    for (i, (_, y)) in l2.iter().enumerate() {
                        let (w2, d) = (y.bits(), d + i as u32);
                        let w1 = l1[k].1.bits();
                        if w1 >= w2 {
                            // part of one piece
                            if w1 == w2 {
                                fb.insts.push(Inst::Move(d, a[k]));
                            } else {
                                let x = fb.tmp();
                                fb.insts.push(Inst::Bin(B::LShr, w1, x, a[k], Op::C(at as u64)));
                                fb.insts.push(Inst::Cast(Cast::Trunc, w1, w2, d, Op::R(x)));
                            }
                            at += w2;
                            if at == w1 {
                                at = 0;
                                k += 1;
                            }
                        } else {
                            let mut acc = Op::C(0);
                            let mut sh = 0;
                            while sh < w2 {
                                let w1 = l1[k].1.bits();
                                let x = fb.tmp();
                                fb.insts.push(Inst::Cast(Cast::ZExt, w1, w2, x, a[k]));
                                let y = fb.tmp();
                                fb.insts.push(Inst::Bin(B::Shl, w2, y, Op::R(x), Op::C(sh as u64)));
                                let z = fb.tmp();
                                fb.insts.push(Inst::Bin(B::Or, w2, z, acc, Op::R(y)));
                                acc = Op::R(z);
                                sh += w1;
                                k += 1;
                            }
                            fb.insts.push(Inst::Move(d, acc));
                        }
                    }
                    return Ok(());
                }
                if t2.nslots() == 2 {
                    if op == "zext" {
                        fb.insts.push(Inst::Move(d, a[0]));
                        fb.insts.push(Inst::Move(d + 1, if a.len() == 2 { a[1] } else { Op::C(0) }));
                        return Ok(());
                    }
                    if op == "sext" && a.len() == 1 {
                        fb.insts.push(Inst::Wide(WOp::SExt, t.bits(), d, [a[0], Op::C(0)], [Op::C(0), Op::C(0)]));
                        return Ok(());
                    }
                    unsup!()
                }
                if t.nslots() == 2 {
                    if op == "trunc" {
                        if t2.bits() == 64 {
                            fb.insts.push(Inst::Move(d, a[0]));
                        } else {
                            fb.insts.push(Inst::Cast(Cast::Trunc, 64, t2.bits(), d, a[0]));
                        }
                        return Ok(());
                    }
                    unsup!()
                }
                if t == Ty::F32 || t2 == Ty::F32 {
                    if op != "bitcast" {
                        unsup!()
                    }
                }
                let (fbits, tbits) = (t.bits(), t2.bits());
                let c = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "uitofp" => Cast::UIToFP,
                    "sitofp" => Cast::SIToFP,
                    "fptoui" => Cast::FPToUI,
                    "fptosi" => Cast::FPToSI,
                    _ => {
                        if fbits == tbits {
                            fb.insts.push(Inst::Move(d, a[0]));
                            return Ok(());
                        } else if fbits > tbits {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                };
                fb.insts.push(Inst::Cast(c, fbits, tbits, d, a[0]));
            }
            "freeze" => {
                let t = p.ty()?;
                let a = fb.vals(p, &t)?;
                let d = fb.slot(dst.unwrap(), &t);
                for (k, x) in a.iter().enumerate() {
                    fb.insts.push(Inst::Move(d + k as u32, *x));
                }
            }
            "select" => {
                while matches!(p.word(), Some("nnan" | "ninf" | "nsz" | "fast")) {
                    p.i += 1;
                }
                let ct = p.ty()?;
                let c = fb.vals(p, &ct)?;
                p.exp(',')?;
                let t = p.ty()?;
                let a = fb.vals(p, &t)?;
                p.exp(',')?;
                let _ = p.ty()?;
                let b = fb.vals(p, &t)?;
                let d = fb.slot(dst.unwrap(), &t);
                if c.len() != 1 && c.len() != a.len() {
                    unsup!()
                }
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                for k in 0..a.len() {
                    fb.insts.push(Inst::Select(d + k as u32, c[if c.len() == 1 { 0 } else { k }], a[k], b[k], lv[k].1.bits()));
                }
            }
            "getelementptr" => {
                p.skip_attrs(true);
                let t = p.ty()?;
                p.exp(',')?;
                let pt = p.ty()?;
                let base = fb.val(p, &pt)?;
                let mut off: i64 = 0;
                let mut idx: Vec<(Op, u32, u64)> = vec![];
                let mut cur = t;
                let mut first = true;
                while p.isp(',') && !matches!(p.t.get(p.i + 1), Some(Tok::Meta)) {
                    p.i += 1;
                    let it = p.ty()?;
                    let v = fb.val(p, &it)?;
                    let w = it.bits();
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size();
                                cur = *e;
                            }
                            Ty::Struct(f, _) => {
                                if let Op::C(k) = v {
                                    off += cur.offsets()[k as usize] as i64;
                                    cur = f[k as usize].clone();
                                    continue;
                                }
                                return Err("gep struct idx".into());
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match v {
                        Op::C(k) => {
                            let k = if w < 64 { ((k << (64 - w)) as i64) >> (64 - w) } else { k as i64 };
                            off += k * scale as i64
                        }
                        _ => idx.push((v, w, scale)),
                    }
                }
                let d = fb.slot(dst.unwrap(), &Ty::Ptr);
                fb.insts.push(Inst::Gep(d, base, off, idx.into_boxed_slice()));
            }
            "load" => {
                p.eatw("atomic");
                p.eatw("volatile");
                let t = p.ty()?;
                p.exp(',')?;
                let pt = p.ty()?;
                let a = fb.val(p, &pt)?;
                let d = fb.slot(dst.unwrap(), &t);
                if matches!(&t, Ty::Vec(_, e) if **e == Ty::Int(1)) {
                    unsup!()
                }
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                for (k, (o, lt)) in lv.iter().enumerate() {
                    fb.insts.push(Inst::Load(d + k as u32, lt.bits(), a, *o));
                }
            }
            "store" => {
                p.eatw("atomic");
                p.eatw("volatile");
                let t = p.ty()?;
                let v = fb.vals(p, &t)?;
                p.exp(',')?;
                let pt = p.ty()?;
                let a = fb.val(p, &pt)?;
                if matches!(&t, Ty::Vec(_, e) if **e == Ty::Int(1)) {
                    unsup!()
                }
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                for (k, (o, lt)) in lv.iter().enumerate() {
                    fb.insts.push(Inst::Store(lt.bits(), v[k], a, *o));
                }
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = p.ty()?;
                let mut al = t.align();
                let mut cnt = Op::C(1);
                while p.eat(',') {
                    if p.eatw("align") {
                        al = p.num()?;
                    } else if p.is_type_start() {
                        let ct = p.ty()?;
                        cnt = fb.val(p, &ct)?;
                    } else {
                        break;
                    }
                }
                let d = fb.slot(dst.unwrap(), &Ty::Ptr);
                fb.insts.push(Inst::Alloca(d, t.size(), al, cnt));
            }
            "extractvalue" => {
                let t = p.ty()?;
                let v = fb.vals(p, &t)?;
                let mut cur = t;
                let mut o = 0u32;
                while p.isp(',') && matches!(p.t.get(p.i + 1), Some(Tok::Num(_))) {
                    p.i += 1;
                    let k = p.num()? as usize;
                    match cur.clone() {
                        Ty::Struct(f, _) => {
                            o += f[..k].iter().map(|t| t.nslots()).sum::<u32>();
                            cur = f[k].clone();
                        }
                        Ty::Arr(_, e) => {
                            o += e.nslots() * k as u32;
                            cur = *e;
                        }
                        _ => return Err("extractvalue".into()),
                    }
                }
                let d = fb.slot(dst.unwrap(), &cur);
                for k in 0..cur.nslots() {
                    fb.insts.push(Inst::Move(d + k, v[(o + k) as usize]));
                }
            }
            "insertvalue" => {
                let t = p.ty()?;
                let v = fb.vals(p, &t)?;
                p.exp(',')?;
                let et = p.ty()?;
                let e = fb.vals(p, &et)?;
                let mut cur = t.clone();
                let mut o = 0u32;
                while p.isp(',') && matches!(p.t.get(p.i + 1), Some(Tok::Num(_))) {
                    p.i += 1;
                    let k = p.num()? as usize;
                    match cur.clone() {
                        Ty::Struct(f, _) => {
                            o += f[..k].iter().map(|t| t.nslots()).sum::<u32>();
                            cur = f[k].clone();
                        }
                        Ty::Arr(_, e) => {
                            o += e.nslots() * k as u32;
                            cur = *e;
                        }
                        _ => return Err("insertvalue".into()),
                    }
                }
                let d = fb.slot(dst.unwrap(), &t);
                for k in 0..t.nslots() {
                    let x = if k >= o && k < o + cur.nslots() { e[(k - o) as usize] } else { v[k as usize] };
                    fb.insts.push(Inst::Move(d + k, x));
                }
            }
            "extractelement" => {
                let t = p.ty()?;
                let v = fb.vals(p, &t)?;
                p.exp(',')?;
                let it = p.ty()?;
                let i = fb.val(p, &it)?;
                let (e, n) = t.lane();
                let d = fb.slot(dst.unwrap(), &e);
                match i {
                    Op::C(i) if (i as usize) < n && e.nslots() == 1 => fb.insts.push(Inst::Move(d, v[i as usize])),
                    _ => unsup!(),
                }
            }
            "insertelement" => {
                let t = p.ty()?;
                let v = fb.vals(p, &t)?;
                p.exp(',')?;
                let et = p.ty()?;
                let x = fb.vals(p, &et)?;
                p.exp(',')?;
                let it = p.ty()?;
                let i = fb.val(p, &it)?;
                let d = fb.slot(dst.unwrap(), &t);
                match i {
                    Op::C(i) if x.len() == 1 => {
                        for k in 0..v.len() {
                            fb.insts.push(Inst::Move(d + k as u32, if k as u64 == i { x[0] } else { v[k] }));
                        }
                    }
                    _ => unsup!(),
                }
            }
            "shufflevector" => {
                let t = p.ty()?;
                let mut v = fb.vals(p, &t)?;
                p.exp(',')?;
                let t2 = p.ty()?;
                v.extend(fb.vals(p, &t2)?);
                p.exp(',')?;
                let mt = p.ty()?;
                let m = fb.vals(p, &mt)?;
                let d = fb.slot(dst.unwrap(), &Ty::Vec(m.len() as u64, Box::new(t.lane().0)));
                for (k, x) in m.iter().enumerate() {
                    match x {
                        Op::C(i) if (*i as usize) < v.len() => fb.insts.push(Inst::Move(d + k as u32, v[*i as usize])),
                        Op::C(_) => fb.insts.push(Inst::Move(d + k as u32, Op::C(0))),
                        _ => unsup!(),
                    }
                }
            }
            "phi" => {
                while matches!(p.word(), Some("nnan" | "ninf" | "nsz" | "fast")) {
                    p.i += 1;
                }
                let t = p.ty()?;
                let d = fb.slot(dst.unwrap(), &t);
                loop {
                    p.exp('[')?;
                    let v = fb.vals(p, &t)?;
                    p.exp(',')?;
                    let from = match p.next()? {
                        Tok::Loc(n) => n,
                        _ => return Err("phi".into()),
                    };
                    p.exp(']')?;
                    let e = phis.entry((label, from)).or_default();
                    for (k, x) in v.iter().enumerate() {
                        e.push((*x, d + k as u32));
                    }
                    if !(p.isp(',') && matches!(p.t.get(p.i + 1), Some(Tok::P('[')))) {
                        break;
                    }
                    p.i += 1;
                }
            }
            "br" => {
                let i = fb.insts.len();
                if p.word() == Some("label") {
                    let l = lab(p)?;
                    fb.insts.push(Inst::Br(dummy()));
                    pend.push((PendEdge::Br(i), label, l));
                } else {
                    let t = p.ty()?;
                    let c = fb.val(p, &t)?;
                    p.exp(',')?;
                    let a = lab(p)?;
                    p.exp(',')?;
                    let b = lab(p)?;
                    fb.insts.push(Inst::CondBr(c, Box::new((dummy(), dummy()))));
                    pend.push((PendEdge::T(i), label, a));
                    pend.push((PendEdge::F(i), label, b));
                }
            }
            "switch" => {
                let i = fb.insts.len();
                let t = p.ty()?;
                let v = fb.val(p, &t)?;
                p.exp(',')?;
                let d = lab(p)?;
                p.exp('[')?;
                let mut cs = vec![];
                while !p.eat(']') {
                    let ct = p.ty()?;
                    let k = p.scalar_const(&ct)?;
                    p.exp(',')?;
                    let l = lab(p)?;
                    pend.push((PendEdge::Sw(i, cs.len()), label, l));
                    cs.push((k, dummy()));
                }
                pend.push((PendEdge::SwD(i), label, d));
                fb.insts.push(Inst::Switch(t.bits(), v, Box::new((cs, dummy()))));
            }
            "ret" => {
                let t = p.ty()?;
                let v = if t == Ty::Void { vec![] } else { fb.vals(p, &t)? };
                fb.insts.push(Inst::Ret(v.into_boxed_slice()));
            }
            "unreachable" | "resume" => fb.insts.push(Inst::Unreachable),
            "landingpad" => {
                let t = p.ty()?;
                fb.slot(dst.unwrap(), &t);
                fb.insts.push(Inst::Unsupported("landingpad".into()));
            }
            "fence" => {}
            "atomicrmw" => {
                p.eatw("volatile");
                let k = p.word().ok_or("rmw")?;
                p.i += 1;
                let pt = p.ty()?;
                let a = fb.val(p, &pt)?;
                p.exp(',')?;
                let t = p.ty()?;
                let v = fb.val(p, &t)?;
                let d = fb.slot(dst.unwrap_or("$rmw"), &t);
                let o = match k {
                    "add" => 0,
                    "sub" => 1,
                    "xchg" => 2,
                    "and" => 3,
                    "or" => 4,
                    _ => unsup!(),
                };
                fb.insts.push(Inst::Rmw(o, t.bits(), d, a, v));
            }
            "cmpxchg" => {
                p.eatw("weak");
                p.eatw("volatile");
                let pt = p.ty()?;
                let a = fb.val(p, &pt)?;
                p.exp(',')?;
                let t = p.ty()?;
                let c = fb.val(p, &t)?;
                p.exp(',')?;
                let _ = p.ty()?;
                let n = fb.val(p, &t)?;
                let d = fb.slot(dst.unwrap(), &Ty::Struct(vec![t.clone(), Ty::Int(1)], false));
                fb.insts.push(Inst::Cmpxchg(t.bits(), d, a, c, n));
            }
            "call" | "invoke" => {
                p.skip_attrs(true);
                let rt = p.ty()?;
                if p.isp('(') {
                    p.skip_parens(); // function type of varargs callee
                }
                enum C<'x> {
                    G(&'x str),
                    L(Op),
                    Asm,
                }
                let cal = match p.next()? {
                    Tok::Glob(n) => C::G(n),
                    Tok::Loc(n) => C::L(Op::R(fb.slot(n, &Ty::Ptr))),
                    Tok::Word("asm") => C::Asm,
                    Tok::Word("inttoptr") => {
                        p.i -= 1;
                        let v = p.scalar_const(&Ty::Ptr)?;
                        C::L(Op::C(v))
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                if let C::Asm = cal {
                    if dst.is_none() {
                        return Ok(()); // black_box-like barriers
                    }
                    unsup!()
                }
                p.exp('(')?;
                let mut args: Vec<Op> = vec![];
                let mut atys: Vec<Ty> = vec![];
                if !p.eat(')') {
                    loop {
                        let t = p.ty()?;
                        if t == Ty::Meta {
                            // metadata operand
                            while !p.isp(',') && !p.isp(')') {
                                p.i += 1;
                            }
                        } else {
                            p.skip_attrs(false);
                            let v = fb.vals(p, &t)?;
                            for _ in 0..v.len() {
                                atys.push(t.clone());
                            }
                            args.extend(v);
                        }
                        if p.eat(')') {
                            break;
                        }
                        p.exp(',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while p.word() != Some("to") {
                        p.next()?;
                    }
                    p.i += 1;
                    normal = Some(lab(p)?);
                }
                let nd = rt.nslots();
                let d = match dst {
                    Some(n) => fb.slot(n, &rt),
                    None => 0,
                };
                let nd = if dst.is_some() { nd } else { 0 };
                if let C::G(n) = cal {
                    if n.starts_with("llvm.") {
                        let base = n;
                        if let (Some(Ty::Vec(n, e)), Some(r)) = (atys.get(0), base.strip_prefix("llvm.vector.reduce.")) {
                            let w = if e.nslots() == 1 { e.bits() } else { unsup!() };
                            let (mut acc, mut i) = (args[0], 1);
                            while i < *n as usize {
                                let z = fb.tmp();
                                let b = |k| Inst::Bin(k, w, z, acc, args[i]);
                                let t = |k| Inst::Intr(k, w, z, vec![acc, args[i]].into_boxed_slice(), w);
                                let x = match r.split('.').next().unwrap() {
                                    "add" => b(B::Add),
                                    "mul" => b(B::Mul),
                                    "and" => b(B::And),
                                    "or" => b(B::Or),
                                    "xor" => b(B::Xor),
                                    "umax" => t(Intr::Umax),
                                    "umin" => t(Intr::Umin),
                                    "smax" => t(Intr::Smax),
                                    "smin" => t(Intr::Smin),
                                    _ => unsup!(),
                                };
                                fb.insts.push(x);
                                acc = Op::R(z);
                                i += 1;
                            }
                            fb.insts.push(Inst::Move(d, acc));
                            return Ok(());
                        }
                        let w = atys.get(0).map(|t| if matches!(t, Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..)) { 999 } else { t.bits() }).unwrap_or(0);
                        let has = |s: &str| base.starts_with(s);
                        let k = if has("llvm.memcpy") || has("llvm.memmove") {
                            Intr::Memcpy
                        } else if has("llvm.memset") {
                            Intr::Memset
                        } else if has("llvm.lifetime") || has("llvm.assume") || has("llvm.experimental.noalias") || has("llvm.dbg") || has("llvm.x86.sse2.pause") || has("llvm.prefetch") || has("llvm.donothing") {
                            Intr::Nop
                        } else if has("llvm.umax.") {
                            Intr::Umax
                        } else if has("llvm.umin.") {
                            Intr::Umin
                        } else if has("llvm.smax.") {
                            Intr::Smax
                        } else if has("llvm.smin.") {
                            Intr::Smin
                        } else if has("llvm.usub.sat") {
                            Intr::UsubSat
                        } else if has("llvm.uadd.sat") {
                            Intr::UaddSat
                        } else if has("llvm.fshl") {
                            Intr::Fshl
                        } else if has("llvm.fshr") {
                            Intr::Fshr
                        } else if has("llvm.ctlz") {
                            Intr::Ctlz
                        } else if has("llvm.cttz") {
                            Intr::Cttz
                        } else if has("llvm.ctpop") {
                            Intr::Ctpop
                        } else if has("llvm.bswap") {
                            Intr::Bswap
                        } else if has("llvm.bitreverse") {
                            Intr::Bitrev
                        } else if has("llvm.ucmp") {
                            Intr::Ucmp
                        } else if has("llvm.scmp") {
                            Intr::Scmp
                        } else if has("llvm.uadd.with") {
                            Intr::UaddO
                        } else if has("llvm.usub.with") {
                            Intr::UsubO
                        } else if has("llvm.umul.with") {
                            Intr::UmulO
                        } else if has("llvm.sadd.with") {
                            Intr::SaddO
                        } else if has("llvm.ssub.with") {
                            Intr::SsubO
                        } else if has("llvm.smul.with") {
                            Intr::SmulO
                        } else if has("llvm.abs") {
                            Intr::Abs
                        } else if has("llvm.is.constant") {
                            Intr::False
                        } else if has("llvm.trap") || has("llvm.ubsantrap") {
                            Intr::Trap
                        } else if has("llvm.threadlocal.address") || has("llvm.expect") || has("llvm.launder") || has("llvm.ssa.copy") {
                            Intr::Ident
                        } else if has("llvm.fabs.f64") {
                            Intr::Fabs
                        } else {
                            Intr::Unsupported
                        };
                        if k == Intr::Unsupported || (args.len() > 0 && w == 999) || (w == 128 && args.len() > 0) {
                            if k == Intr::Ctlz && w == 128 {
                                fb.insts.push(Inst::Wide(WOp::Ctlz, 128, d, [args[0], args[1]], [Op::C(0), Op::C(0)]));
                                return Ok(());
                            }
                            unsup!()
                        }
                        if k != Intr::Nop {
                            let rw = if rt == Ty::Void {
                                0
                            } else if let Ty::Struct(f, _) = &rt {
                                f[0].bits()
                            } else {
                                rt.bits()
                            };
                            fb.insts.push(Inst::Intr(k, rw, d, args.into_boxed_slice(), w));
                        }
                        if let Some(l) = normal {
                            let i = fb.insts.len();
                            fb.insts.push(Inst::Br(dummy()));
                            pend.push((PendEdge::Br(i), label, l));
                        }
                        return Ok(());
                    }
                }
                let callee = match cal {
                    C::G(n) => match self.fidx.get(n) {
                        Some(f) => Callee::Fn(*f),
                        None => Callee::Ext(n.to_string()),
                    },
                    C::L(o) => Callee::Ind(o),
                    C::Asm => unreachable!(),
                };
                let i = fb.insts.len();
                let ret_bits = if nd == 1 { rt.bits() } else { 0 };
                fb.insts.push(Inst::Call(Box::new(CallI { callee, args: args.into_boxed_slice(), dst: d, ndst: nd, normal: None, ret_bits })));
                if let Some(l) = normal {
                    if let Inst::Call(c) = &mut fb.insts[i] {
                        c.normal = Some(dummy());
                    }
                    pend.push((PendEdge::Inv(i), label, l));
                }
            }
            _ => unsup!(),
        }
        let _ = FB::tmp;
        Ok(())
    }
}
