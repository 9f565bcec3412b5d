//! The oracle: an ECMAScript 2020 lexer and parser written from the standard's grammar, building
//! generic ESTree nodes. It shares no code with the crate under test. It gives one of four
//! answers: a tree; a tree that the standard forbids only through an early error outside what is
//! claimed (rejecting and accepting with this tree are both right); "no program of the language";
//! and "not decided" for syntax outside the stated scope.
pub mod lex;
pub mod parse;
pub mod uni;

pub enum V {
    Null,
    Bool(bool),
    /// a string that is never symbolic
    S(&'static str),
    Str(Vec<u8>),
    Num(f64),
    Node(Box<N>),
    List(Vec<V>),
}

pub struct N {
    pub ty: &'static str,
    pub f: Vec<(&'static str, V)>,
    /// was wrapped in parentheses
    pub paren: bool,
    /// `{a = 1}` somewhere directly inside: only legal when it becomes a pattern
    pub cover: bool,
    /// a trailing comma after a rest/spread element: illegal in a pattern
    pub tcomma: bool,
    /// source offset, only used to compare positions
    pub pos: usize,
}

pub fn n(ty: &'static str, pos: usize, f: Vec<(&'static str, V)>) -> N {
    N { ty, f, paren: false, cover: false, tcomma: false, pos }
}

pub fn vn(x: N) -> V {
    V::Node(Box::new(x))
}

pub fn opt(x: Option<N>) -> V {
    match x {
        Some(x) => vn(x),
        None => V::Null,
    }
}

impl N {
    pub fn get(&self, k: &str) -> &V {
        for (n, v) in self.f.iter() {
            if same(n.as_bytes(), k.as_bytes()) {
                return v;
            }
        }
        &V::Null
    }
    pub fn take(&mut self, k: &str) -> V {
        for (n, v) in self.f.iter_mut() {
            if same(n.as_bytes(), k.as_bytes()) {
                return std::mem::replace(v, V::Null);
            }
        }
        V::Null
    }
    pub fn is(&self, ty: &str) -> bool {
        same(self.ty.as_bytes(), ty.as_bytes())
    }
}

/// Byte equality (plain loop).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    /// not a program of the language
    Bad,
    /// outside the scope of the claims
    Unspec,
    /// a class field or a static block: not in ES2020
    Field,
}
pub type R<T> = Result<T, E>;

pub enum Answer {
    Tree(N),
    Lenient(N),
    Reject,
    Unspec,
    /// may be accepted only with a node for the class field or static block it has
    Field,
}

pub fn run(src: &[u32], module: bool) -> Answer {
    run_kind(src, module).0
}

/// ... and what kind of mistake a rejected source has (`parse::ILLEGAL_RETURN` ..., 0 for others),
/// and where.
pub fn run_kind(src: &[u32], module: bool) -> (Answer, u8, usize) {
    let mut p = parse::P::new(src, module);
    let a = answer(&mut p);
    (a, p.kind, p.fault)
}

fn answer(p: &mut parse::P) -> Answer {
    match p.program() {
        Ok(t) => {
            if p.lenient {
                Answer::Lenient(t)
            } else {
                Answer::Tree(t)
            }
        }
        Err(E::Bad) => Answer::Reject,
        Err(E::Unspec) => Answer::Unspec,
        Err(E::Field) => Answer::Field,
    }
}
