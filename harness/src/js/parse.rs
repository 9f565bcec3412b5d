//! Syntactic grammar (ECMAScript 2020, clauses 12 to 15) with ESTree output.
use super::lex::{Lex, Tok, K};
use super::{n, opt, same, vn, E, N, R, V};

/// Per-function parsing context.
#[derive(Clone, Copy)]
struct C {
    strict: bool,
    /// inside a function: `return` is allowed
    ret: bool,
    gen: bool,
    asy: bool,
    /// in formal parameters: no yield or await expression
    params: bool,
    loops: u32,
    brk: u32,
    super_prop: bool,
    super_call: bool,
    newt: bool,
    /// nesting of blocks below the function or program body
    block: u32,
    depth: u32,
}

pub struct P<'a> {
    lx: Lex<'a>,
    t: Tok,
    prev_end: usize,
    module: bool,
    pub lenient: bool,
    /// what kind of mistake was found, when it is one with a name (see `KINDS`), and where
    pub kind: u8,
    pub fault: usize,
    /// a declarator lacks its initializer, and another one follows
    murky: bool,
    c: C,
    labels: Vec<(Vec<u8>, bool)>,
    /// where an arrow function may start
    arrow_at: usize,
    /// ... and whether `in` is excluded from its body
    arrow_noin: bool,
    /// an unresolved `{a = 1}` was seen in the current assignment expression
    cover: bool,
    yield_seen: bool,
    await_seen: bool,
    await_name: bool,
    /// declared names: (name, lexical, at the top level)
    decls: Vec<(Vec<u8>, bool, bool)>,
    exports: Vec<Vec<u8>>,
    export_locals: Vec<Vec<u8>>,
}

const RESERVED: [&str; 37] = [
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum",
    "export", "extends", "false", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null",
    "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "with",
];
const STRICT: [&str; 8] =
    ["implements", "interface", "let", "package", "private", "protected", "public", "static"];

fn among(w: &str, l: &[&str]) -> bool {
    if w.len() == 0 {
        return false;
    }
    for x in l {
        if same(x.as_bytes(), w.as_bytes()) {
            return true;
        }
    }
    false
}

fn eq(a: &str, b: &str) -> bool {
    same(a.as_bytes(), b.as_bytes())
}

fn prec(w: &str) -> u32 {
    match w.as_bytes() {
        b"||" => 1,
        b"&&" => 2,
        b"|" => 3,
        b"^" => 4,
        b"&" => 5,
        b"==" | b"!=" | b"===" | b"!==" => 6,
        b"<" | b">" | b"<=" | b">=" | b"in" | b"instanceof" => 7,
        b"<<" | b">>" | b">>>" => 8,
        b"+" | b"-" => 9,
        b"*" | b"/" | b"%" => 10,
        b"**" => 11,
        _ => 0,
    }
}

const ASSIGN: [&str; 13] = ["=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];

/// The mistakes that have a name of their own.
pub const ILLEGAL_RETURN: u8 = 1;
pub const ILLEGAL_BREAK: u8 = 2;
pub const NO_ITERATION: u8 = 3;
pub const STRICT_WITH: u8 = 4;
pub const STRICT_FUNCTION: u8 = 5;
pub const NEWLINE_AFTER_THROW: u8 = 6;
pub const TWO_DEFAULTS: u8 = 7;
pub const MISSING_INIT: u8 = 8;
pub const GENERATOR_BODY: u8 = 9;
pub const NO_FUNCTION_NAME: u8 = 10;
pub const LHS_ASSIGN: u8 = 11;
pub const LHS_PREFIX: u8 = 12;
pub const LHS_POSTFIX: u8 = 13;
pub const LHS_FOR: u8 = 14;
pub const STATIC_PROTOTYPE: u8 = 16;
pub const STRICT_RESERVED: u8 = 17;
/// reported under one name or another
pub const UNNAMED: u8 = 255;

/// A name, a member or a literal that may be a pattern: what may stand left of `=`.
fn plain(x: &N) -> bool {
    x.is("Identifier") || x.is("MemberExpression") || !x.paren && (x.is("ObjectExpression") || x.is("ArrayExpression"))
}

fn is_arrow(x: &N) -> bool {
    !x.paren && x.is("ArrowFunctionExpression")
}

impl<'a> P<'a> {
    pub fn new(src: &'a [u32], module: bool) -> P<'a> {
        P {
            lx: Lex { src, p: 0 },
            t: Tok {
                k: K::Eof,
                s: 0,
                e: 0,
                nl: false,
                w: "",
                v: Vec::new(),
                v2: Vec::new(),
                num: 0.0,
                esc: false,
                octal: false,
                tail: false,
                badesc: false,
            },
            prev_end: 0,
            module,
            lenient: false,
            kind: 0,
            fault: 0,
            murky: false,
            c: C {
                strict: module,
                ret: false,
                gen: false,
                asy: false,
                params: false,
                loops: 0,
                brk: 0,
                super_prop: false,
                super_call: false,
                newt: false,
                block: 0,
                depth: 0,
            },
            labels: Vec::new(),
            arrow_at: usize::MAX,
            arrow_noin: false,
            cover: false,
            yield_seen: false,
            await_seen: false,
            await_name: false,
            decls: Vec::new(),
            exports: Vec::new(),
            export_locals: Vec::new(),
        }
    }

    // ------------------------------------------------------------------ tokens

    fn fail<T>(&mut self, kind: u8, at: usize) -> R<T> {
        // what follows may not even be a token
        let odd = kind >= LHS_ASSIGN && kind <= LHS_FOR && self.cover;
        let odd = odd || match self.peek() {
            Ok(t) => t.k == K::Punct && (eq(t.w, "/") || eq(t.w, "/=")),
            Err(_) => true,
        };
        self.kind = if odd || self.murky && kind != MISSING_INIT { UNNAMED } else { kind };
        self.fault = at;
        Err(E::Bad)
    }
    /// A jump that stands nowhere; what follows it may be another mistake.
    fn stray<T>(&mut self, kind: u8, at: usize) -> R<T> {
        self.kind = UNNAMED;
        self.semi()?;
        self.fail(kind, at)
    }
    fn next(&mut self) -> R<()> {
        self.prev_end = self.t.e;
        // where the tokens end the mistake may be another
        let kind = self.kind;
        self.kind = UNNAMED;
        self.t = self.lx.next()?;
        self.kind = kind;
        Ok(())
    }
    /// The token after the current one.
    fn peek(&mut self) -> R<Tok> {
        let p = self.lx.p;
        let t = self.lx.next();
        self.lx.p = p;
        if t.is_err() {
            self.kind = UNNAMED;
        }
        t
    }
    fn is(&self, w: &str) -> bool {
        (self.t.k == K::Punct || self.t.k == K::Word && !self.t.esc) && eq(self.t.w, w)
    }
    fn eat(&mut self, w: &str) -> R<bool> {
        if self.is(w) {
            self.next()?;
            Ok(true)
        } else {
            Ok(false)
        }
    }
    fn need(&mut self, w: &str) -> R<()> {
        if self.is(w) {
            self.next()
        } else {
            Err(E::Bad)
        }
    }
    fn semi(&mut self) -> R<()> {
        if self.is(";") {
            self.next()
        } else if self.is("}") || self.t.k == K::Eof || self.t.nl {
            Ok(())
        } else {
            Err(E::Bad)
        }
    }
    fn raw(&self, s: usize, e: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(16);
        for i in s..e {
            super::lex::push_cp(&mut v, self.lx.src[i]);
        }
        v
    }

    /// May the word be used as an identifier here?
    fn ident_ok(&mut self, t: &Tok, binding: bool) -> R<()> {
        if t.k != K::Word {
            return Err(E::Bad);
        }
        if t.w.len() == 0 {
            return Ok(());
        }
        if among(t.w, &RESERVED) {
            return Err(E::Bad);
        }
        if eq(t.w, "yield") && (self.c.gen || self.c.strict) {
            return Err(E::Bad);
        }
        if eq(t.w, "await") {
            if self.c.asy {
                return Err(E::Bad);
            }
            if self.module {
                return Err(if self.c.depth == 0 { E::Unspec } else { E::Bad });
            }
            self.await_name = true;
        }
        if self.c.strict {
            if among(t.w, &STRICT) {
                return self.fail(STRICT_RESERVED, t.s);
            }
            if binding && (eq(t.w, "eval") || eq(t.w, "arguments")) {
                return self.fail(UNNAMED, t.s);
            }
        }
        Ok(())
    }
    /// ... in the braces of an import or export
    fn name_in_list(&mut self, t: &Tok, binding: bool) -> R<()> {
        let r = self.ident_ok(t, binding);
        if self.kind != 0 {
            self.kind = UNNAMED;
        }
        r
    }
    fn ident(&mut self, binding: bool) -> R<N> {
        let t = self.t.clone();
        self.ident_ok(&t, binding)?;
        self.next()?;
        Ok(n("Identifier", t.s, vec![("name", V::Str(t.v))]))
    }
    fn ident_name(&mut self) -> R<N> {
        if self.t.k != K::Word {
            return Err(E::Bad);
        }
        let x = n("Identifier", self.t.s, vec![("name", V::Str(self.t.v.clone()))]);
        self.next()?;
        Ok(x)
    }

    // ------------------------------------------------------------------ names

    fn declare(&mut self, x: &N, lexical: bool) {
        if x.is("Identifier") {
            if let V::Str(s) = x.get("name") {
                let top = self.c.depth == 0 && (!lexical || self.c.block == 0);
                self.decls.push((s.clone(), lexical, top));
            }
            return;
        }
        for (k, v) in x.f.iter() {
            if eq(k, "right") || eq(k, "key") {
                continue;
            }
            match v {
                V::Node(y) => self.declare(y, lexical),
                V::List(l) => {
                    for y in l {
                        if let V::Node(y) = y {
                            self.declare(y, lexical)
                        }
                    }
                }
                _ => {}
            }
        }
    }

    /// Early errors on names are not claimed: be lenient when one may apply.
    fn names(&mut self) {
        let mut bad = false;
        for i in 0..self.decls.len() {
            for j in 0..i {
                let (a, b) = (&self.decls[i], &self.decls[j]);
                if (a.1 || b.1) && same(&a.0, &b.0) {
                    bad = true;
                }
            }
        }
        for i in 0..self.exports.len() {
            for j in 0..i {
                if same(&self.exports[i], &self.exports[j]) {
                    bad = true;
                }
            }
        }
        for l in self.export_locals.iter() {
            let mut found = false;
            for d in self.decls.iter() {
                if d.2 && same(&d.0, l) {
                    found = true;
                }
            }
            if !found {
                bad = true;
            }
        }
        if bad {
            self.lenient = true;
        }
    }

    // ------------------------------------------------------------------ program

    pub fn program(&mut self) -> R<N> {
        self.next()?;
        let mut body = Vec::with_capacity(8);
        self.directives(&mut body)?;
        while self.t.k != K::Eof {
            let s = if self.module && (self.is("import") || self.is("export")) {
                self.module_item()?
            } else {
                self.item()?
            };
            body.push(vn(s));
        }
        self.names();
        Ok(n(
            "Program",
            0,
            vec![("body", V::List(body)), ("sourceType", V::S(if self.module { "module" } else { "script" }))],
        ))
    }

    /// Leading string-literal statements; answers whether "use strict" is among them.
    fn directives(&mut self, body: &mut Vec<V>) -> R<bool> {
        let mut strict = false;
        let mut octal = false;
        while self.t.k == K::Str {
            let t = self.t.clone();
            let x = self.expression(false)?;
            let only = !x.paren && x.is("Literal") && self.prev_end == t.e;
            self.semi()?;
            if !only {
                body.push(vn(n("ExpressionStatement", t.s, vec![("expression", vn(x))])));
                break;
            }
            let raw = self.raw(t.s + 1, t.e - 1);
            if same(&raw, b"use strict") {
                strict = true;
                self.c.strict = true;
            }
            octal |= t.octal;
            if strict && octal {
                self.lenient = true;
            }
            body.push(vn(n(
                "ExpressionStatement",
                t.s,
                vec![("expression", vn(x)), ("directive", V::Str(raw))],
            )));
        }
        Ok(strict)
    }

    // ------------------------------------------------------------------ modules

    fn source(&mut self) -> R<N> {
        if self.t.k != K::Str {
            return Err(E::Bad);
        }
        self.literal()
    }

    fn module_item(&mut self) -> R<N> {
        let pos = self.t.s;
        if self.is("import") {
            let p = self.peek()?;
            if p.k == K::Punct && (eq(p.w, "(") || eq(p.w, ".")) {
                return Err(E::Unspec); // dynamic import, import.meta
            }
            self.next()?;
            let mut specs = Vec::with_capacity(4);
            if self.t.k == K::Str {
                let s = self.source()?;
                self.semi()?;
                return Ok(n("ImportDeclaration", pos, vec![("specifiers", V::List(specs)), ("source", vn(s))]));
            }
            let mut more = true;
            if self.t.k == K::Word {
                let id = self.ident(true)?;
                self.declare(&id, true);
                specs.push(vn(n("ImportDefaultSpecifier", pos, vec![("local", vn(id))])));
                more = self.eat(",")?;
            }
            if more {
                if self.eat("*")? {
                    self.need("as")?;
                    let id = self.ident(true)?;
                    self.declare(&id, true);
                    specs.push(vn(n("ImportNamespaceSpecifier", pos, vec![("local", vn(id))])));
                } else {
                    self.need("{")?;
                    while !self.is("}") {
                        if self.t.k == K::Str {
                            return Err(E::Unspec); // ES2022
                        }
                        let t = self.t.clone();
                        let imported = self.ident_name()?;
                        let local = if self.eat("as")? {
                            self.ident(true)?
                        } else {
                            self.name_in_list(&t, true)?;
                            n("Identifier", t.s, vec![("name", V::Str(t.v))])
                        };
                        self.declare(&local, true);
                        specs.push(vn(n(
                            "ImportSpecifier",
                            t.s,
                            vec![("local", vn(local)), ("imported", vn(imported))],
                        )));
                        if !self.eat(",")? {
                            break;
                        }
                    }
                    self.need("}")?;
                }
            }
            self.need("from")?;
            let s = self.source()?;
            if self.is("with") || self.is("assert") {
                return Err(E::Unspec);
            }
            self.semi()?;
            return Ok(n("ImportDeclaration", pos, vec![("specifiers", V::List(specs)), ("source", vn(s))]));
        }
        self.need("export")?;
        if self.eat("*")? {
            if self.is("as") {
                return Err(E::Unspec); // ES2020's export * as ns
            }
            self.need("from")?;
            let s = self.source()?;
            self.semi()?;
            return Ok(n("ExportAllDeclaration", pos, vec![("source", vn(s))]));
        }
        if self.eat("default")? {
            self.exports.push(b"default".to_vec());
            let p = self.peek()?;
            let d = if self.is("function") || self.is("async") && p.k == K::Word && !p.esc && eq(p.w, "function") && !p.nl
            {
                self.function(true, true)?
            } else if self.is("class") {
                self.class(true, true)?
            } else {
                let x = self.assign_checked(false)?;
                self.semi()?;
                x
            };
            return Ok(n("ExportDefaultDeclaration", pos, vec![("declaration", vn(d))]));
        }
        if self.eat("{")? {
            let mut specs = Vec::with_capacity(4);
            let mut locals = Vec::new();
            while !self.is("}") {
                if self.t.k == K::Str {
                    return Err(E::Unspec);
                }
                let t = self.t.clone();
                let local = self.ident_name()?;
                let name;
                let exported = if self.eat("as")? {
                    if self.t.k == K::Str {
                        return Err(E::Unspec);
                    }
                    name = self.t.v.clone();
                    self.ident_name()?
                } else {
                    name = t.v.clone();
                    n("Identifier", t.s, vec![("name", V::Str(t.v.clone()))])
                };
                self.exports.push(name);
                locals.push(t);
                specs.push(vn(n("ExportSpecifier", pos, vec![("exported", vn(exported)), ("local", vn(local))])));
                if !self.eat(",")? {
                    break;
                }
            }
            self.need("}")?;
            let mut src = None;
            if self.eat("from")? {
                src = Some(self.source()?);
                if self.is("with") || self.is("assert") {
                    return Err(E::Unspec);
                }
            } else {
                for t in locals {
                    self.name_in_list(&t, false)?;
                    self.export_locals.push(t.v);
                }
            }
            self.semi()?;
            return Ok(n(
                "ExportNamedDeclaration",
                pos,
                vec![("declaration", V::Null), ("specifiers", V::List(specs)), ("source", opt(src))],
            ));
        }
        let before = self.decls.len();
        let p = self.peek()?;
        let d = if self.is("var") || self.is("const") || self.is("let") {
            self.var_statement()?
        } else if self.is("function") || self.is("async") && p.k == K::Word && !p.esc && eq(p.w, "function") && !p.nl {
            self.function(true, false)?
        } else if self.is("class") {
            self.class(true, false)?
        } else {
            return Err(E::Bad);
        };
        for i in before..self.decls.len() {
            if self.decls[i].2 {
                let x = self.decls[i].0.clone();
                self.exports.push(x);
            }
        }
        Ok(n(
            "ExportNamedDeclaration",
            pos,
            vec![("declaration", vn(d)), ("specifiers", V::List(Vec::new())), ("source", V::Null)],
        ))
    }

    // ------------------------------------------------------------------ statements

    /// A statement list item.
    fn item(&mut self) -> R<N> {
        if self.t.k == K::Word && !self.t.esc && self.t.w.len() > 0 {
            match self.t.w.as_bytes() {
                b"function" => return self.function(true, false),
                b"class" => return self.class(true, false),
                b"const" => return self.var_statement(),
                b"async" => {
                    let p = self.peek()?;
                    if p.k == K::Word && !p.esc && eq(p.w, "function") && !p.nl {
                        return self.function(true, false);
                    }
                }
                b"let" => {
                    let p = self.peek()?;
                    if p.k == K::Punct && (eq(p.w, "[") || eq(p.w, "{")) {
                        return self.var_statement();
                    }
                    if p.k == K::Word {
                        if !self.c.strict && self.c.gen && eq(p.w, "yield") || self.c.asy && eq(p.w, "await") {
                            return Err(E::Unspec); // reads differently from ES2018 on
                        }
                        if !among(p.w, &RESERVED) {
                            return self.var_statement();
                        }
                    }
                    // `let` is an identifier here
                }
                _ => {}
            }
        }
        self.statement(0)
    }

    /// The body of a control statement. Sloppy `if` bodies may be function declarations.
    fn sub(&mut self, r#if: bool) -> R<N> {
        if r#if && self.is("function") && !self.c.strict {
            let p = self.peek()?;
            if p.k == K::Punct && eq(p.w, "*") {
                return self.fail(GENERATOR_BODY, p.s);
            }
            self.c.block += 1;
            let f = self.function(true, false)?;
            self.c.block -= 1;
            return Ok(f);
        }
        self.statement(2)
    }

    fn block(&mut self) -> R<N> {
        let pos = self.t.s;
        self.need("{")?;
        self.c.block += 1;
        let mut body = Vec::with_capacity(4);
        while !self.is("}") {
            if self.t.k == K::Eof {
                return Err(E::Bad);
            }
            body.push(vn(self.item()?));
        }
        self.c.block -= 1;
        self.next()?;
        Ok(n("BlockStatement", pos, vec![("body", V::List(body))]))
    }

    fn paren_expr(&mut self) -> R<N> {
        self.need("(")?;
        let x = self.expression(false)?;
        self.need(")")?;
        Ok(x)
    }

    fn loop_body(&mut self) -> R<N> {
        self.c.loops += 1;
        self.c.brk += 1;
        let b = self.sub(false)?;
        self.c.loops -= 1;
        self.c.brk -= 1;
        Ok(b)
    }

    /// `single`: 0 in a statement list, 1 below a label, 2 as the body of a control statement.
    fn statement(&mut self, single: u32) -> R<N> {
        let pos = self.t.s;
        if self.t.k == K::Punct {
            if self.is("{") {
                return self.block();
            }
            if self.is(";") {
                self.next()?;
                return Ok(n("EmptyStatement", pos, vec![]));
            }
        }
        if self.t.k == K::Word && !self.t.esc && self.t.w.len() > 0 {
            match self.t.w.as_bytes() {
                b"var" => return self.var_statement(),
                b"function" if single > 0 && self.c.strict => return self.fail(STRICT_FUNCTION, pos),
                b"const" | b"class" | b"function" => return Err(E::Bad),
                b"async" => {
                    let p = self.peek()?;
                    if p.k == K::Word && !p.esc && eq(p.w, "function") && !p.nl {
                        return Err(E::Bad);
                    }
                }
                b"let" if single > 0 => {
                    if self.c.strict {
                        return self.fail(UNNAMED, pos);
                    }
                    let p = self.peek()?;
                    if p.k == K::Punct && eq(p.w, "[") {
                        return Err(E::Bad);
                    }
                }
                b"if" => {
                    self.next()?;
                    let test = self.paren_expr()?;
                    let c = self.sub(true)?;
                    let a = if self.eat("else")? { Some(self.sub(true)?) } else { None };
                    return Ok(n(
                        "IfStatement",
                        pos,
                        vec![("test", vn(test)), ("consequent", vn(c)), ("alternate", opt(a))],
                    ));
                }
                b"for" => return self.for_statement(),
                b"while" => {
                    self.next()?;
                    let test = self.paren_expr()?;
                    let b = self.loop_body()?;
                    return Ok(n("WhileStatement", pos, vec![("test", vn(test)), ("body", vn(b))]));
                }
                b"do" => {
                    self.next()?;
                    let b = self.loop_body()?;
                    self.need("while")?;
                    let test = self.paren_expr()?;
                    self.eat(";")?;
                    return Ok(n("DoWhileStatement", pos, vec![("body", vn(b)), ("test", vn(test))]));
                }
                b"continue" | b"break" => {
                    let brk = self.is("break");
                    self.next()?;
                    let mut label = None;
                    if self.t.k == K::Word && !self.t.nl {
                        // a word that is no name may be reported as a stray jump
                        let kind = self.kind;
                        if if brk { self.c.brk } else { self.c.loops } == 0 {
                            self.kind = UNNAMED;
                        }
                        let id = self.ident(false)?;
                        self.kind = kind;
                        if let V::Str(s) = id.get("name") {
                            let mut found = false;
                            for l in self.labels.iter() {
                                if same(&l.0, s) && (brk || l.1) {
                                    found = true;
                                }
                            }
                            if !found {
                                self.lenient = true; // unknown label
                            }
                        }
                        label = Some(id);
                    } else if brk && self.c.brk == 0 {
                        return self.stray(ILLEGAL_BREAK, pos);
                    }
                    if !brk && self.c.loops == 0 {
                        return self.stray(NO_ITERATION, pos);
                    }
                    self.semi()?;
                    return Ok(n(
                        if brk { "BreakStatement" } else { "ContinueStatement" },
                        pos,
                        vec![("label", opt(label))],
                    ));
                }
                b"return" => {
                    if !self.c.ret {
                        self.next()?;
                        // what follows it may be another mistake
                        if !(self.is(";") || self.is("}") || self.t.k == K::Eof || self.t.nl) && self.expression(false).is_err() {
                            return self.fail(UNNAMED, pos);
                        }
                        return self.fail(ILLEGAL_RETURN, pos);
                    }
                    self.next()?;
                    let mut arg = None;
                    if !(self.is(";") || self.is("}") || self.t.k == K::Eof || self.t.nl) {
                        arg = Some(self.expression(false)?);
                    }
                    self.semi()?;
                    return Ok(n("ReturnStatement", pos, vec![("argument", opt(arg))]));
                }
                b"with" => {
                    if self.c.strict {
                        return self.fail(STRICT_WITH, pos);
                    }
                    self.next()?;
                    let o = self.paren_expr()?;
                    let b = self.sub(false)?;
                    return Ok(n("WithStatement", pos, vec![("object", vn(o)), ("body", vn(b))]));
                }
                b"switch" => return self.switch(),
                b"throw" => {
                    self.next()?;
                    if self.t.nl {
                        return self.fail(NEWLINE_AFTER_THROW, self.t.s);
                    }
                    let x = self.expression(false)?;
                    self.semi()?;
                    return Ok(n("ThrowStatement", pos, vec![("argument", vn(x))]));
                }
                b"try" => return self.try_statement(),
                b"debugger" => {
                    self.next()?;
                    self.semi()?;
                    return Ok(n("DebuggerStatement", pos, vec![]));
                }
                b"import" => {
                    let p = self.peek()?;
                    if p.k == K::Punct && (eq(p.w, "(") || eq(p.w, ".")) {
                        return Err(E::Unspec);
                    }
                    return Err(E::Bad);
                }
                _ => {}
            }
        }
        if self.t.k == K::Word {
            let t = self.t.clone();
            let p = self.peek()?;
            if p.k == K::Punct && eq(p.w, ":") && !among(t.w, &RESERVED) {
                let label = self.ident(false)?;
                self.next()?;
                for l in self.labels.iter() {
                    if same(&l.0, &t.v) {
                        self.lenient = true; // the label is already in use
                    }
                }
                if self.is("function") {
                    if self.c.strict {
                        return self.fail(STRICT_FUNCTION, self.t.s);
                    }
                    let p = self.peek()?;
                    if p.k == K::Punct && eq(p.w, "*") {
                        return self.fail(GENERATOR_BODY, p.s);
                    }
                    if single == 2 {
                        self.lenient = true;
                    }
                    let f = self.function(true, false)?;
                    return Ok(n("LabeledStatement", pos, vec![("label", vn(label)), ("body", vn(f))]));
                }
                // a label may stand before other labels of the loop it names
                let mut l = Lex { src: self.lx.src, p: self.t.s };
                let mut is_loop = false;
                loop {
                    let a = l.next();
                    match a {
                        Ok(a) if a.k == K::Word => {
                            if !a.esc && among(a.w, &["for", "while", "do"]) {
                                is_loop = true;
                                break;
                            }
                        }
                        _ => break,
                    }
                    match l.next() {
                        Ok(b) if b.k == K::Punct && eq(b.w, ":") => {}
                        _ => break,
                    }
                }
                self.labels.push((t.v, is_loop));
                let b = self.statement(if single == 0 { 1 } else { single })?;
                self.labels.pop();
                return Ok(n("LabeledStatement", pos, vec![("label", vn(label)), ("body", vn(b))]));
            }
        }
        let x = self.expression(false)?;
        self.semi()?;
        Ok(n("ExpressionStatement", pos, vec![("expression", vn(x))]))
    }

    fn switch(&mut self) -> R<N> {
        let pos = self.t.s;
        self.next()?;
        let d = self.paren_expr()?;
        self.need("{")?;
        self.c.brk += 1;
        self.c.block += 1;
        let mut cases = Vec::with_capacity(4);
        let mut def = false;
        while !self.is("}") {
            let at = self.t.s;
            let test = if self.eat("case")? {
                Some(self.expression(false)?)
            } else {
                self.need("default")?;
                if def {
                    return self.fail(TWO_DEFAULTS, at);
                }
                def = true;
                None
            };
            self.need(":")?;
            let mut body = Vec::with_capacity(4);
            while !(self.is("}") || self.is("case") || self.is("default")) {
                if self.t.k == K::Eof {
                    return Err(E::Bad);
                }
                body.push(vn(self.item()?));
            }
            cases.push(vn(n("SwitchCase", at, vec![("test", opt(test)), ("consequent", V::List(body))])));
        }
        self.next()?;
        self.c.brk -= 1;
        self.c.block -= 1;
        Ok(n("SwitchStatement", pos, vec![("discriminant", vn(d)), ("cases", V::List(cases))]))
    }

    fn try_statement(&mut self) -> R<N> {
        let pos = self.t.s;
        self.next()?;
        let b = self.block()?;
        let mut h = None;
        let mut f = None;
        if self.is("catch") {
            let at = self.t.s;
            self.next()?;
            let mut param = None;
            if self.eat("(")? {
                let x = self.target()?;
                self.c.block += 1;
                self.declare(&x, true);
                self.c.block -= 1;
                param = Some(x);
                self.need(")")?;
            }
            let cb = self.block()?;
            h = Some(n("CatchClause", at, vec![("param", opt(param)), ("body", vn(cb))]));
        }
        if self.eat("finally")? {
            f = Some(self.block()?);
        }
        if h.is_none() && f.is_none() {
            return Err(E::Bad);
        }
        Ok(n("TryStatement", pos, vec![("block", vn(b)), ("handler", opt(h)), ("finalizer", opt(f))]))
    }

    fn var_statement(&mut self) -> R<N> {
        let (d, miss) = self.decl_list(false)?;
        if miss {
            return self.fail(MISSING_INIT, self.t.s);
        }
        self.semi()?;
        Ok(d)
    }

    /// `var`, `let` or `const` and the declarators. Also answers whether an initializer that is
    /// required outside for-in/of heads is missing.
    fn decl_list(&mut self, noin: bool) -> R<(N, bool)> {
        let pos = self.t.s;
        let kind = self.t.w;
        self.next()?;
        let mut l = Vec::with_capacity(4);
        let mut miss = false;
        let outer = (self.murky, self.kind);
        loop {
            let at = self.t.s;
            let id = self.target()?;
            let from = self.decls.len();
            self.declare(&id, !eq(kind, "var"));
            if !eq(kind, "var") {
                for i in from..self.decls.len() {
                    if same(&self.decls[i].0, b"let") {
                        return Err(E::Bad); // `let` may not be lexically bound
                    }
                }
            }
            let init = if self.eat("=")? { Some(self.assign_checked(noin)?) } else { None };
            if init.is_none() && (!id.is("Identifier") || eq(kind, "const")) {
                miss = true;
                self.murky = true;
                self.kind = UNNAMED;
            }
            l.push(vn(n("VariableDeclarator", at, vec![("id", vn(id)), ("init", opt(init))])));
            if !self.eat(",")? {
                break;
            }
        }
        self.murky = outer.0;
        self.kind = outer.1;
        Ok((n("VariableDeclaration", pos, vec![("declarations", V::List(l)), ("kind", V::S(kind))]), miss))
    }

    /// Whether the `let` of a for head begins a declaration.
    fn let_declares(&mut self) -> R<bool> {
        let p = self.peek()?;
        if p.k == K::Word
            && (!self.c.strict && self.c.gen && eq(p.w, "yield") || self.c.asy && eq(p.w, "await"))
        {
            return Err(E::Unspec); // reads differently from ES2018 on
        }
        Ok(p.k == K::Punct && (eq(p.w, "[") || eq(p.w, "{")) || p.k == K::Word && !among(p.w, &RESERVED))
    }

    fn for_statement(&mut self) -> R<N> {
        let pos = self.t.s;
        self.next()?;
        if self.is("await") {
            return Err(if self.c.asy || self.module && self.c.depth == 0 { E::Unspec } else { E::Bad });
        }
        self.need("(")?;
        let mut init = None;
        self.c.block += 1;
        if self.is(";") {
        } else if self.is("var") || self.is("const") || self.is("let") && self.let_declares()? {
            let var = self.is("var");
            let (d, miss) = self.decl_list(true)?;
            if self.is("in") || self.is("of") {
                let (one, has, simple) = match d.get("declarations") {
                    V::List(l) => match &l[0] {
                        V::Node(x) => (
                            l.len() == 1,
                            !matches!(x.get("init"), V::Null),
                            matches!(x.get("id"), V::Node(i) if i.is("Identifier")),
                        ),
                        _ => (false, false, false),
                    },
                    _ => (false, false, false),
                };
                if !one {
                    return self.fail(UNNAMED, pos);
                }
                if has {
                    // Annex B has `for (var a = 1 in b)` in sloppy code
                    if !var || !self.is("in") || self.c.strict || !simple {
                        return Err(E::Bad);
                    }
                }
                return self.for_each(pos, d);
            }
            if miss {
                return self.fail(MISSING_INIT, self.t.s);
            }
            init = Some(d);
        } else {
            let first = self.t.clone();
            let save = self.cover;
            self.cover = false;
            let x = match self.sequence(true) {
                // a pattern with defaults may be the first mistake
                Err(E::Bad) if first.k == K::Punct && (eq(first.w, "{") || eq(first.w, "[")) => {
                    return self.fail(UNNAMED, first.s)
                }
                x => x?,
            };
            if self.is("of") || self.is("in") {
                if self.is("of") && first.k == K::Word && !first.esc && eq(first.w, "let") {
                    return Err(E::Bad);
                }
                if self.is("of") && first.k == K::Word && eq(first.w, "async") && !x.paren && x.is("Identifier") {
                    return Err(E::Unspec); // `for (async of`: forbidden from ES2021 on
                }
                self.cover = save;
                if !plain(&x) && (x.paren || !x.is("SequenceExpression")) {
                    return self.fail(LHS_FOR, first.s);
                }
                let l = self.to_pat(x)?;
                return self.for_each(pos, l);
            }
            if self.cover {
                return Err(E::Bad);
            }
            self.cover = save;
            init = Some(x);
        }
        self.need(";")?;
        let test = if self.is(";") { None } else { Some(self.expression(false)?) };
        self.need(";")?;
        let update = if self.is(")") { None } else { Some(self.expression(false)?) };
        self.need(")")?;
        let b = self.loop_body()?;
        self.c.block -= 1;
        Ok(n(
            "ForStatement",
            pos,
            vec![("init", opt(init)), ("test", opt(test)), ("update", opt(update)), ("body", vn(b))],
        ))
    }

    fn for_each(&mut self, pos: usize, left: N) -> R<N> {
        let of = self.is("of");
        self.next()?;
        let right = if of { self.assign_checked(false)? } else { self.expression(false)? };
        self.need(")")?;
        let b = self.loop_body()?;
        self.c.block -= 1;
        Ok(n(
            if of { "ForOfStatement" } else { "ForInStatement" },
            pos,
            vec![("left", vn(left)), ("right", vn(right)), ("body", vn(b))],
        ))
    }

    // ------------------------------------------------------------------ binding patterns

    /// BindingIdentifier or BindingPattern.
    fn target(&mut self) -> R<N> {
        let pos = self.t.s;
        if self.eat("[")? {
            let mut l = Vec::with_capacity(4);
            while !self.is("]") {
                if self.eat(",")? {
                    l.push(V::Null);
                    continue;
                }
                if self.eat("...")? {
                    let x = self.target()?;
                    l.push(vn(n("RestElement", pos, vec![("argument", vn(x))])));
                    break;
                }
                l.push(vn(self.element()?));
                if !self.is("]") {
                    self.need(",")?;
                }
            }
            self.need("]")?;
            return Ok(n("ArrayPattern", pos, vec![("elements", V::List(l))]));
        }
        if self.eat("{")? {
            let mut l = Vec::with_capacity(4);
            while !self.is("}") {
                if self.eat("...")? {
                    let x = self.ident(true)?;
                    l.push(vn(n("RestElement", pos, vec![("argument", vn(x))])));
                    break;
                }
                let t = self.t.clone();
                let (key, computed) = self.key()?;
                let (value, short) = if self.eat(":")? {
                    (self.element()?, false)
                } else {
                    self.ident_ok(&t, true)?;
                    let id = n("Identifier", t.s, vec![("name", V::Str(t.v))]);
                    let v = if self.eat("=")? {
                        let r = self.assign_checked(false)?;
                        n("AssignmentPattern", t.s, vec![("left", vn(id)), ("right", vn(r))])
                    } else {
                        id
                    };
                    (v, true)
                };
                l.push(vn(property(t.s, key, computed, value, "init", false, short)));
                if !self.is("}") {
                    self.need(",")?;
                }
            }
            self.need("}")?;
            return Ok(n("ObjectPattern", pos, vec![("properties", V::List(l))]));
        }
        self.ident(true)
    }

    fn element(&mut self) -> R<N> {
        let pos = self.t.s;
        let x = self.target()?;
        if self.eat("=")? {
            let r = self.assign_checked(false)?;
            return Ok(n("AssignmentPattern", pos, vec![("left", vn(x)), ("right", vn(r))]));
        }
        Ok(x)
    }

    // ------------------------------------------------------------------ cover grammar

    /// Reinterprets an expression as an assignment target.
    fn to_pat(&mut self, mut x: N) -> R<N> {
        let pos = x.pos;
        match x.ty.as_bytes() {
            b"Identifier" => {
                if self.c.strict {
                    if let V::Str(s) = x.get("name") {
                        if same(s, b"eval") || same(s, b"arguments") {
                            return Err(E::Bad);
                        }
                    }
                }
                Ok(x)
            }
            b"MemberExpression" => Ok(x),
            b"ObjectExpression" if !x.paren => {
                let tcomma = x.tcomma;
                let mut out = Vec::with_capacity(4);
                if let V::List(l) = x.take("properties") {
                    let m = l.len();
                    for (i, p) in l.into_iter().enumerate() {
                        let mut p = match p {
                            V::Node(p) => *p,
                            _ => return Err(E::Bad),
                        };
                        if p.is("SpreadElement") {
                            if i + 1 != m || tcomma {
                                return Err(E::Bad);
                            }
                            let a = match p.take("argument") {
                                V::Node(a) => *a,
                                _ => return Err(E::Bad),
                            };
                            if !a.is("Identifier") && !a.is("MemberExpression") {
                                return Err(E::Bad);
                            }
                            let a = self.to_pat(a)?;
                            out.push(vn(n("RestElement", p.pos, vec![("argument", vn(a))])));
                            continue;
                        }
                        let init = match p.get("kind") {
                            V::S(k) => eq(k, "init"),
                            _ => false,
                        };
                        if !init || matches!(p.get("method"), V::Bool(true)) {
                            return Err(E::Bad);
                        }
                        let v = match p.take("value") {
                            V::Node(v) => *v,
                            _ => return Err(E::Bad),
                        };
                        let v = self.to_elem(v)?;
                        set(&mut p, "value", vn(v));
                        out.push(vn(p));
                    }
                }
                Ok(n("ObjectPattern", pos, vec![("properties", V::List(out))]))
            }
            b"ArrayExpression" if !x.paren => {
                let tcomma = x.tcomma;
                let mut out = Vec::with_capacity(4);
                if let V::List(l) = x.take("elements") {
                    let m = l.len();
                    for (i, p) in l.into_iter().enumerate() {
                        let mut p = match p {
                            V::Node(p) => *p,
                            _ => {
                                out.push(V::Null);
                                continue;
                            }
                        };
                        if p.is("SpreadElement") {
                            if i + 1 != m || tcomma {
                                return Err(E::Bad);
                            }
                            let a = match p.take("argument") {
                                V::Node(a) => *a,
                                _ => return Err(E::Bad),
                            };
                            let a = self.to_pat(a)?;
                            out.push(vn(n("RestElement", p.pos, vec![("argument", vn(a))])));
                            continue;
                        }
                        out.push(vn(self.to_elem(p)?));
                    }
                }
                Ok(n("ArrayPattern", pos, vec![("elements", V::List(out))]))
            }
            // made by an inner `=`
            b"ObjectPattern" | b"ArrayPattern" => Ok(x),
            _ => Err(E::Bad),
        }
    }

    /// A target with an optional default.
    fn to_elem(&mut self, mut x: N) -> R<N> {
        if !x.paren && x.is("AssignmentExpression") {
            let plain = match x.get("operator") {
                V::S(k) => eq(k, "="),
                _ => false,
            };
            if !plain {
                return Err(E::Bad);
            }
            let l = x.take("left");
            let r = x.take("right");
            return Ok(n("AssignmentPattern", x.pos, vec![("left", l), ("right", r)]));
        }
        if x.is("AssignmentPattern") {
            return Ok(x);
        }
        self.to_pat(x)
    }

    /// Every target of the pattern must be a plain identifier.
    fn only_names(&self, x: &N) -> R<()> {
        if x.paren {
            return Err(E::Bad);
        }
        match x.ty.as_bytes() {
            b"Identifier" => {
                if self.c.strict {
                    if let V::Str(s) = x.get("name") {
                        if same(s, b"eval") || same(s, b"arguments") {
                            return Err(E::Bad);
                        }
                    }
                }
                Ok(())
            }
            b"AssignmentPattern" => self.only_names_v(x.get("left")),
            b"RestElement" => self.only_names_v(x.get("argument")),
            b"Property" => self.only_names_v(x.get("value")),
            b"ObjectPattern" => self.only_names_l(x.get("properties")),
            b"ArrayPattern" => self.only_names_l(x.get("elements")),
            _ => Err(E::Bad),
        }
    }
    fn only_names_v(&self, v: &V) -> R<()> {
        match v {
            V::Node(x) => self.only_names(x),
            _ => Err(E::Bad),
        }
    }
    fn only_names_l(&self, v: &V) -> R<()> {
        if let V::List(l) = v {
            for y in l {
                if let V::Node(x) = y {
                    self.only_names(x)?;
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ functions

    fn enter(&mut self, c: C) -> (C, Vec<(Vec<u8>, bool)>, [bool; 4]) {
        let old = (
            self.c,
            std::mem::take(&mut self.labels),
            [self.yield_seen, self.await_seen, self.await_name, self.cover],
        );
        self.c = c;
        self.yield_seen = false;
        self.await_seen = false;
        self.await_name = false;
        self.cover = false;
        old
    }
    fn leave(&mut self, o: (C, Vec<(Vec<u8>, bool)>, [bool; 4])) {
        self.c = o.0;
        self.labels = o.1;
        self.yield_seen = o.2[0];
        self.await_seen = o.2[1];
        self.await_name = o.2[2];
        self.cover = o.2[3];
    }

    fn fn_ctx(&self, gen: bool, asy: bool) -> C {
        C {
            strict: self.c.strict,
            ret: true,
            gen,
            asy,
            params: true,
            loops: 0,
            brk: 0,
            super_prop: false,
            super_call: false,
            newt: true,
            block: 0,
            depth: self.c.depth + 1,
        }
    }

    /// `[async] function [*] [name] (params) { body }`
    fn function(&mut self, decl: bool, anon: bool) -> R<N> {
        let pos = self.t.s;
        let asy = self.eat("async")?;
        self.need("function")?;
        let gen = self.eat("*")?;
        let mut id = None;
        if decl {
            if !(anon && self.is("(")) {
                if self.is("(") {
                    return self.fail(NO_FUNCTION_NAME, self.t.s);
                }
                let x = self.ident(true)?;
                let lexical = self.c.block > 0 || self.module;
                self.declare(&x, lexical);
                id = Some(x);
            }
        } else if !self.is("(") {
            let (g, a, w) = (self.c.gen, self.c.asy, self.await_name);
            self.c.gen = gen;
            self.c.asy = asy;
            let x = self.ident(true);
            self.c.gen = g;
            self.c.asy = a;
            self.await_name = w;
            id = Some(x?);
        }
        let c = self.fn_ctx(gen, asy);
        let o = self.enter(c);
        let from = self.decls.len();
        let (ps, body) = self.params_body(id.as_ref(), false, 2)?;
        self.end_names(from);
        self.leave(o);
        Ok(func(if decl { "FunctionDeclaration" } else { "FunctionExpression" }, pos, id, ps, body, gen, asy))
    }

    /// Names declared inside a function do not clash with those outside.
    fn end_names(&mut self, from: usize) {
        for i in from..self.decls.len() {
            for j in from..i {
                let (a, b) = (&self.decls[i], &self.decls[j]);
                if (a.1 || b.1) && same(&a.0, &b.0) {
                    self.lenient = true;
                }
            }
        }
        self.decls.truncate(from);
    }

    /// Parameters and body of a function whose context is set. `arity`: 0 getter, 1 setter.
    fn params_body(&mut self, id: Option<&N>, unique: bool, arity: u32) -> R<(Vec<V>, N)> {
        self.need("(")?;
        let mut ps = Vec::with_capacity(4);
        let mut names: Vec<usize> = Vec::new();
        let from = self.decls.len();
        names.push(from);
        let mut comma = false;
        if arity == 0 && !self.is(")") {
            return self.fail(UNNAMED, self.t.s);
        }
        while !self.is(")") {
            comma = false;
            let at = self.t.s;
            if self.eat("...")? {
                if arity < 2 {
                    return Err(E::Bad);
                }
                let x = self.target()?;
                self.declare(&x, false);
                ps.push(n("RestElement", at, vec![("argument", vn(x))]));
                break;
            }
            let x = self.element()?;
            self.declare(&x, false);
            ps.push(x);
            if self.is(")") {
                break;
            }
            self.need(",")?;
            comma = true;
        }
        self.need(")")?;
        if arity < 2 && (ps.len() as u32 != arity || comma) {
            return Err(E::Bad);
        }
        self.c.params = false;
        let body = self.body(id, &ps, unique, from)?;
        let mut l = Vec::with_capacity(4);
        for p in ps {
            l.push(vn(p));
        }
        Ok((l, body))
    }

    /// `{ directives statements }`, after the parameters.
    fn body(&mut self, id: Option<&N>, ps: &[N], unique: bool, from: usize) -> R<N> {
        let pos = self.t.s;
        let was = self.c.strict;
        self.need("{")?;
        let mut simple = true;
        for p in ps {
            if !p.is("Identifier") {
                simple = false;
            }
        }
        let upto = self.decls.len();
        let mut l = Vec::with_capacity(4);
        let strict = self.directives(&mut l)?;
        if strict {
            if !simple {
                self.lenient = true;
            }
            if !was {
                if let Some(x) = id {
                    self.retro(x);
                }
                for p in ps {
                    self.retro(p);
                }
            }
        }
        if unique || self.c.strict || !simple {
            for i in from..upto {
                for j in from..i {
                    if same(&self.decls[i].0, &self.decls[j].0) {
                        self.lenient = true;
                    }
                }
            }
        }
        while !self.is("}") {
            if self.t.k == K::Eof {
                return Err(E::Bad);
            }
            l.push(vn(self.item()?));
        }
        // the closing brace belongs to the outer context as far as lexing goes
        self.next()?;
        Ok(n("BlockStatement", pos, vec![("body", V::List(l))]))
    }

    /// Names that become illegal when the body turns out to be strict.
    fn retro(&mut self, x: &N) {
        if let V::Str(s) = x.get("name") {
            if same(s, b"eval") || same(s, b"arguments") || same(s, b"yield") {
                self.lenient = true;
            }
            for w in STRICT.iter() {
                if same(s, w.as_bytes()) {
                    self.lenient = true;
                }
            }
        }
    }

    /// The `=>` is the current token.
    fn arrow(&mut self, pos: usize, ps: Vec<N>, asy: bool, noin: bool) -> R<N> {
        if self.t.nl {
            return Err(E::Bad);
        }
        let mut c = self.fn_ctx(false, asy);
        c.super_prop = self.c.super_prop;
        c.super_call = self.c.super_call;
        c.newt = self.c.newt;
        c.params = false;
        let o = self.enter(c);
        let from = self.decls.len();
        for p in ps.iter() {
            self.only_names(p)?;
            self.declare(p, false);
        }
        self.next()?;
        let expr = !self.is("{");
        let body = if expr {
            // `yield` and `return` belong to functions with a block
            let b = self.assign_checked(noin)?;
            for i in from..self.decls.len() {
                for j in from..i {
                    if same(&self.decls[i].0, &self.decls[j].0) {
                        self.lenient = true;
                    }
                }
            }
            b
        } else {
            self.body(None, &ps, true, from)?
        };
        self.end_names(from);
        self.leave(o);
        let mut l = Vec::with_capacity(4);
        for p in ps {
            l.push(vn(p));
        }
        Ok(n(
            "ArrowFunctionExpression",
            pos,
            vec![
                ("id", V::Null),
                ("params", V::List(l)),
                ("body", vn(body)),
                ("generator", V::Bool(false)),
                ("expression", V::Bool(expr)),
                ("async", V::Bool(asy)),
            ],
        ))
    }

    fn method(&mut self, gen: bool, asy: bool, arity: u32, ctor: bool) -> R<N> {
        let pos = self.t.s;
        let mut c = self.fn_ctx(gen, asy);
        c.super_prop = true;
        c.super_call = ctor;
        let o = self.enter(c);
        let from = self.decls.len();
        let (ps, body) = self.params_body(None, true, arity)?;
        self.end_names(from);
        self.leave(o);
        Ok(func("FunctionExpression", pos, None, ps, body, gen, asy))
    }

    // ------------------------------------------------------------------ classes

    fn class(&mut self, decl: bool, anon: bool) -> R<N> {
        let pos = self.t.s;
        let was = self.c.strict;
        self.c.strict = true;
        self.next()?;
        let mut id = None;
        if self.t.k == K::Word && !self.is("extends") {
            let x = self.ident(true)?;
            if decl {
                self.declare(&x, true);
            }
            id = Some(x);
        } else if decl && !anon {
            return Err(E::Bad);
        }
        let mut sup = None;
        if self.eat("extends")? {
            let save = self.cover;
            self.cover = false;
            self.arrow_at = usize::MAX;
            let x = self.lhs()?;
            if self.cover {
                return Err(E::Bad);
            }
            self.cover = save;
            sup = Some(x);
        }
        let bpos = self.t.s;
        self.need("{")?;
        let mut l = Vec::with_capacity(4);
        let mut ctors = 0;
        while !self.is("}") {
            if self.eat(";")? {
                continue;
            }
            let at = self.t.s;
            let mut stat = false;
            if self.is("static") {
                let p = self.peek()?;
                if !(p.k == K::Punct && eq(p.w, "(")) {
                    field(&p)?;
                    if p.k == K::Punct && eq(p.w, "{") {
                        return Err(E::Field); // static blocks
                    }
                    stat = true;
                    self.next()?;
                }
            }
            let (asy, gen, acc) = self.modifiers(true)?;
            let t = self.t.clone();
            let (key, computed) = self.key()?;
            if !self.is("(") {
                let p = self.t.clone();
                if stat && !computed && (t.k == K::Word || t.k == K::Str) && same(&t.v, b"prototype") {
                    self.kind = UNNAMED;
                }
                field(&p)?;
                if p.nl {
                    return Err(E::Field); // a field ended by a line break
                }
                return Err(E::Bad);
            }
            let mut kind = if acc.len() > 0 { acc } else { "method" };
            let named = !computed && (t.k == K::Word || t.k == K::Str) && same(&t.v, b"constructor");
            if named && !stat {
                if asy || gen || acc.len() > 0 {
                    return Err(E::Bad);
                }
                kind = "constructor";
                ctors += 1;
                if ctors > 1 {
                    self.lenient = true;
                }
            }
            if stat && !computed && (t.k == K::Word || t.k == K::Str) && same(&t.v, b"prototype") {
                return self.fail(STATIC_PROTOTYPE, t.s);
            }
            let arity = if eq(acc, "get") {
                0
            } else if eq(acc, "set") {
                1
            } else {
                2
            };
            let f = self.method(gen, asy, arity, eq(kind, "constructor") && sup.is_some())?;
            l.push(vn(n(
                "MethodDefinition",
                at,
                vec![
                    ("key", vn(key)),
                    ("computed", V::Bool(computed)),
                    ("value", vn(f)),
                    ("kind", V::S(kind)),
                    ("static", V::Bool(stat)),
                ],
            )));
        }
        self.c.strict = was;
        self.next()?;
        let body = n("ClassBody", bpos, vec![("body", V::List(l))]);
        Ok(n(
            if decl { "ClassDeclaration" } else { "ClassExpression" },
            pos,
            vec![("id", opt(id)), ("superClass", opt(sup)), ("body", vn(body))],
        ))
    }

    /// `async`, `*`, `get` and `set` before a property name: (async, generator, "get"/"set"/"").
    fn modifiers(&mut self, class: bool) -> R<(bool, bool, &'static str)> {
        let mut asy = false;
        if self.is("async") || self.is("get") || self.is("set") {
            let w = self.t.w;
            let p = self.peek()?;
            if p.k == K::Punct && (eq(p.w, "(") || !class && among(p.w, &[",", ":", "}", "="])) {
                return Ok((false, false, ""));
            }
            if class {
                field(&p)?;
            }
            if eq(w, "async") {
                if p.nl {
                    return Err(if class { E::Field } else { E::Bad });
                }
                asy = true;
                self.next()?;
            } else {
                if p.k == K::Punct && eq(p.w, "*") {
                    return Err(if class && p.nl { E::Field } else { E::Bad });
                }
                self.next()?;
                return Ok((false, false, w));
            }
        }
        let gen = self.eat("*")?;
        Ok((asy, gen, ""))
    }

    /// A property name: (key, computed).
    fn key(&mut self) -> R<(N, bool)> {
        match self.t.k {
            K::Word => Ok((self.ident_name()?, false)),
            K::Str | K::Num => Ok((self.literal()?, false)),
            _ => {
                self.need("[")?;
                let x = self.assign_checked(false)?;
                self.need("]")?;
                Ok((x, true))
            }
        }
    }

    // ------------------------------------------------------------------ expressions

    /// Expression; no unresolved cover grammar may remain.
    pub fn expression(&mut self, noin: bool) -> R<N> {
        let save = self.cover;
        self.cover = false;
        let x = self.sequence(noin)?;
        if self.cover {
            return Err(E::Bad);
        }
        self.cover = save;
        Ok(x)
    }
    fn assign_checked(&mut self, noin: bool) -> R<N> {
        let save = self.cover;
        self.cover = false;
        let x = self.assign(noin)?;
        if self.cover {
            return Err(E::Bad);
        }
        self.cover = save;
        Ok(x)
    }
    fn sequence(&mut self, noin: bool) -> R<N> {
        let pos = self.t.s;
        let x = self.assign(noin)?;
        if !self.is(",") {
            return Ok(x);
        }
        let mut l = Vec::with_capacity(4);
        l.push(vn(x));
        while self.eat(",")? {
            l.push(vn(self.assign(noin)?));
        }
        Ok(n("SequenceExpression", pos, vec![("expressions", V::List(l))]))
    }

    fn assign(&mut self, noin: bool) -> R<N> {
        let pos = self.t.s;
        if self.c.gen && self.is("yield") {
            return self.yield_expr(noin);
        }
        if self.is("async") {
            let p = self.peek()?;
            if p.k == K::Word && !p.nl && !(!p.esc && among(p.w, &["function", "in", "instanceof", "of"])) {
                self.next()?;
                let t = self.t.clone();
                let o = self.c.asy;
                self.c.asy = true;
                if self.ident_ok(&t, true) == Err(E::Bad) {
                    return self.fail(UNNAMED, t.s);
                }
                self.c.asy = o;
                let id = self.ident(true)?;
                if !self.is("=>") {
                    return Err(E::Bad);
                }
                return self.arrow(pos, vec![id], true, noin);
            }
            if p.k == K::Word && !p.nl && !p.esc && eq(p.w, "of") {
                return Err(E::Unspec); // `async of` reads differently in for heads
            }
        }
        let save = self.cover;
        self.cover = false;
        self.arrow_at = pos;
        self.arrow_noin = noin;
        let x = self.conditional(noin)?;
        if self.t.k == K::Punct && among(self.t.w, &ASSIGN) && !is_arrow(&x) {
            let op = self.t.w;
            let left = if eq(op, "=") {
                let pat = !x.paren && (x.is("ObjectExpression") || x.is("ArrayExpression"));
                if self.cover && !pat {
                    return Err(E::Bad);
                }
                if !plain(&x) {
                    // an unparenthesized yield can not be assigned to anyway
                    let y = matches!(x.get("alternate"), V::Node(a) if a.is("YieldExpression"));
                    return self.fail(if y { UNNAMED } else { LHS_ASSIGN }, pos);
                }
                self.to_pat(x)?
            } else {
                if !(x.is("Identifier") || x.is("MemberExpression")) {
                    return self.fail(LHS_ASSIGN, pos);
                }
                if self.cover {
                    return Err(E::Bad);
                }
                self.to_pat(x)?
            };
            self.next()?;
            self.cover = false;
            let right = self.assign_checked(noin)?;
            self.cover = save;
            return Ok(n(
                "AssignmentExpression",
                pos,
                vec![("operator", V::S(op)), ("left", vn(left)), ("right", vn(right))],
            ));
        }
        if self.cover && !(!x.paren && (x.is("ObjectExpression") || x.is("ArrayExpression"))) {
            return Err(E::Bad);
        }
        self.cover = self.cover || save;
        Ok(x)
    }

    fn yield_expr(&mut self, noin: bool) -> R<N> {
        let pos = self.t.s;
        if self.c.params {
            return Err(E::Bad);
        }
        self.yield_seen = true;
        self.next()?;
        let mut arg = None;
        let mut del = false;
        if !self.t.nl {
            if self.eat("*")? {
                del = true;
                arg = Some(self.assign_checked(noin)?);
            } else if self.starts() {
                arg = Some(self.assign_checked(noin)?);
            }
        }
        Ok(n("YieldExpression", pos, vec![("argument", opt(arg)), ("delegate", V::Bool(del))]))
    }

    /// Can the current token start an assignment expression?
    fn starts(&self) -> bool {
        match self.t.k {
            K::Eof => false,
            K::Word => self.t.esc || !among(self.t.w, &["in", "instanceof"]),
            K::Punct => among(self.t.w, &["(", "[", "{", "+", "-", "!", "~", "++", "--", "/", "/="]),
            _ => true,
        }
    }

    fn conditional(&mut self, noin: bool) -> R<N> {
        let pos = self.t.s;
        let x = self.binary(noin)?;
        if !self.is("?") || is_arrow(&x) {
            return Ok(x);
        }
        self.next()?;
        let a = self.assign_checked(false)?;
        self.need(":")?;
        let b = self.assign_checked(noin)?;
        Ok(n("ConditionalExpression", pos, vec![("test", vn(x)), ("consequent", vn(a)), ("alternate", vn(b))]))
    }

    fn op(&self, noin: bool) -> u32 {
        if self.t.k == K::Eof || self.t.w.len() == 0 || self.t.k == K::Word && self.t.esc {
            return 0;
        }
        if noin && eq(self.t.w, "in") {
            return 0;
        }
        prec(self.t.w)
    }

    fn binary(&mut self, noin: bool) -> R<N> {
        let x = self.unary()?;
        if is_arrow(&x) {
            return Ok(x);
        }
        self.climb(x, 1, noin)
    }

    /// Operators of at least the given precedence, to the right of `x`.
    fn climb(&mut self, mut x: N, min: u32, noin: bool) -> R<N> {
        loop {
            let p = self.op(noin);
            if p == 0 || p < min {
                return Ok(x);
            }
            let op = self.t.w;
            let pos = x.pos;
            if p == 11 && !x.paren && (x.is("UnaryExpression") || x.is("AwaitExpression")) {
                return Err(E::Bad);
            }
            self.next()?;
            let y = self.unary()?;
            let y = self.climb(y, if p == 11 { p } else { p + 1 }, noin)?;
            x = n(
                if p <= 2 { "LogicalExpression" } else { "BinaryExpression" },
                pos,
                vec![("operator", V::S(op)), ("left", vn(x)), ("right", vn(y))],
            );
        }
    }

    fn simple_target(&mut self, x: N) -> R<N> {
        if !(x.is("Identifier") || x.is("MemberExpression")) {
            return Err(E::Bad);
        }
        self.to_pat(x)
    }

    fn unary(&mut self) -> R<N> {
        let pos = self.t.s;
        if self.t.k == K::Punct || self.t.k == K::Word && !self.t.esc {
            if among(self.t.w, &["delete", "void", "typeof", "+", "-", "~", "!"]) {
                let op = self.t.w;
                self.next()?;
                let x = self.unary()?;
                if self.c.strict && eq(op, "delete") && x.is("Identifier") {
                    self.lenient = true;
                }
                return Ok(n(
                    "UnaryExpression",
                    pos,
                    vec![("operator", V::S(op)), ("argument", vn(x)), ("prefix", V::Bool(true))],
                ));
            }
            if self.is("++") || self.is("--") {
                let op = self.t.w;
                self.next()?;
                let at = self.t.s;
                let x = self.unary()?;
                if !(x.is("Identifier") || x.is("MemberExpression")) {
                    return self.fail(if self.is("=>") { UNNAMED } else { LHS_PREFIX }, at);
                }
                let x = self.simple_target(x)?;
                return Ok(n(
                    "UpdateExpression",
                    pos,
                    vec![("operator", V::S(op)), ("argument", vn(x)), ("prefix", V::Bool(true))],
                ));
            }
            if self.is("await") && self.c.asy {
                if self.c.params {
                    return Err(E::Bad);
                }
                self.await_seen = true;
                self.next()?;
                let x = self.unary()?;
                return Ok(n("AwaitExpression", pos, vec![("argument", vn(x))]));
            }
        }
        let x = self.lhs()?;
        if is_arrow(&x) {
            return Ok(x);
        }
        if (self.is("++") || self.is("--")) && !self.t.nl {
            let op = self.t.w;
            if !(x.is("Identifier") || x.is("MemberExpression")) {
                return self.fail(LHS_POSTFIX, pos);
            }
            let x = self.simple_target(x)?;
            self.next()?;
            return Ok(n(
                "UpdateExpression",
                pos,
                vec![("operator", V::S(op)), ("argument", vn(x)), ("prefix", V::Bool(false))],
            ));
        }
        Ok(x)
    }

    fn lhs(&mut self) -> R<N> {
        let pos = self.t.s;
        let can_arrow = self.arrow_at == pos;
        let noin = self.arrow_noin;
        let is_async = self.is("async");
        let mut x = if self.is("new") { self.new_expr()? } else { self.primary()? };
        if is_arrow(&x) {
            return Ok(x);
        }
        let mut first = true;
        loop {
            let plain = first && is_async && x.is("Identifier") && !x.paren;
            first = false;
            if self.is("(") {
                let nl = self.t.nl;
                let save = (self.cover, self.yield_seen, self.await_seen, self.await_name);
                if plain {
                    self.cover = false;
                    self.yield_seen = false;
                    self.await_seen = false;
                    self.await_name = false;
                }
                let (args, comma) = self.args()?;
                if plain {
                    if can_arrow && !nl && self.is("=>") && !self.t.nl {
                        if self.yield_seen || self.await_seen || self.await_name {
                            return Err(E::Bad);
                        }
                        self.cover = save.0;
                        let mut ps = Vec::with_capacity(4);
                        let m = args.len();
                        for (i, a) in args.into_iter().enumerate() {
                            let mut a = match a {
                                V::Node(a) => *a,
                                _ => return Err(E::Bad),
                            };
                            if a.is("SpreadElement") {
                                if i + 1 != m || comma {
                                    return Err(E::Bad);
                                }
                                let y = match a.take("argument") {
                                    V::Node(y) => *y,
                                    _ => return Err(E::Bad),
                                };
                                let y = self.to_pat(y)?;
                                ps.push(n("RestElement", a.pos, vec![("argument", vn(y))]));
                            } else {
                                ps.push(self.to_elem(a)?);
                            }
                        }
                        self.yield_seen = save.1;
                        self.await_seen = save.2;
                        self.await_name = save.3;
                        return self.arrow(pos, ps, true, noin);
                    }
                    if self.cover {
                        return Err(E::Bad);
                    }
                    self.cover = save.0;
                    self.yield_seen |= save.1;
                    self.await_seen |= save.2;
                    self.await_name |= save.3;
                }
                x = n("CallExpression", pos, vec![("callee", vn(x)), ("arguments", V::List(args))]);
            } else {
                match self.member(x, pos)? {
                    (y, true) => x = y,
                    (y, false) => return Ok(y),
                }
            }
        }
    }

    /// One member access or tagged template, if there is one.
    fn member(&mut self, x: N, pos: usize) -> R<(N, bool)> {
        if self.t.k == K::Tmpl {
            let q = self.template(true)?;
            return Ok((n("TaggedTemplateExpression", pos, vec![("tag", vn(x)), ("quasi", vn(q))]), true));
        }
        if self.eat(".")? {
            let y = self.ident_name()?;
            return Ok((
                n(
                    "MemberExpression",
                    pos,
                    vec![("object", vn(x)), ("property", vn(y)), ("computed", V::Bool(false))],
                ),
                true,
            ));
        }
        if self.eat("[")? {
            let y = self.expression(false)?;
            self.need("]")?;
            return Ok((
                n(
                    "MemberExpression",
                    pos,
                    vec![("object", vn(x)), ("property", vn(y)), ("computed", V::Bool(true))],
                ),
                true,
            ));
        }
        Ok((x, false))
    }

    /// Arguments, and whether a comma follows the last one.
    fn args(&mut self) -> R<(Vec<V>, bool)> {
        self.need("(")?;
        let mut l = Vec::with_capacity(4);
        let mut comma = false;
        while !self.is(")") {
            comma = false;
            let at = self.t.s;
            if self.eat("...")? {
                let x = self.assign(false)?;
                l.push(vn(n("SpreadElement", at, vec![("argument", vn(x))])));
            } else {
                l.push(vn(self.assign(false)?));
            }
            if !self.is(")") {
                self.need(",")?;
                comma = true;
            }
        }
        self.next()?;
        Ok((l, comma))
    }

    fn new_expr(&mut self) -> R<N> {
        let pos = self.t.s;
        self.next()?;
        if self.eat(".")? {
            if !self.is("target") {
                return Err(E::Bad);
            }
            let p = self.ident_name()?;
            if !self.c.newt {
                self.lenient = true;
            }
            let m = n("Identifier", pos, vec![("name", V::S("new"))]);
            return Ok(n("MetaProperty", pos, vec![("meta", vn(m)), ("property", vn(p))]));
        }
        let at = self.t.s;
        let sup = self.is("super");
        let mut x = if self.is("new") { self.new_expr()? } else { self.primary()? };
        if is_arrow(&x) {
            return Err(E::Bad);
        }
        if sup && self.is("(") {
            return Err(E::Bad); // `new super()`
        }
        loop {
            match self.member(x, at)? {
                (y, true) => x = y,
                (y, false) => {
                    x = y;
                    break;
                }
            }
        }
        let args = if self.is("(") { self.args()?.0 } else { Vec::new() };
        Ok(n("NewExpression", pos, vec![("callee", vn(x)), ("arguments", V::List(args))]))
    }

    fn literal(&mut self) -> R<N> {
        let t = self.t.clone();
        if t.octal && self.c.strict {
            self.lenient = true;
        }
        self.next()?;
        let raw = self.raw(t.s, t.e);
        let v = if t.k == K::Num { V::Num(t.num) } else { V::Str(t.v) };
        Ok(n("Literal", t.s, vec![("value", v), ("raw", V::Str(raw))]))
    }

    fn primary(&mut self) -> R<N> {
        let pos = self.t.s;
        let can_arrow = self.arrow_at == pos;
        let noin = self.arrow_noin;
        match self.t.k {
            K::Eof => Err(E::Bad),
            K::Num | K::Str => self.literal(),
            K::Tmpl => self.template(false),
            K::Regex => Err(E::Bad),
            K::Word => {
                if !self.t.esc && self.t.w.len() > 0 {
                    match self.t.w.as_bytes() {
                        b"this" => {
                            self.next()?;
                            return Ok(n("ThisExpression", pos, vec![]));
                        }
                        b"null" | b"true" | b"false" => {
                            let w = self.t.w;
                            self.next()?;
                            let v = match w.as_bytes() {
                                b"null" => V::Null,
                                b"true" => V::Bool(true),
                                _ => V::Bool(false),
                            };
                            return Ok(n("Literal", pos, vec![("value", v), ("raw", V::S(w))]));
                        }
                        b"function" => return self.function(false, true),
                        b"class" => return self.class(false, true),
                        b"async" => {
                            let p = self.peek()?;
                            if p.k == K::Word && !p.esc && eq(p.w, "function") && !p.nl {
                                return self.function(false, true);
                            }
                        }
                        b"super" => {
                            self.next()?;
                            if self.is("(") {
                                if !self.c.super_call {
                                    self.lenient = true;
                                }
                            } else if self.is(".") || self.is("[") {
                                if !self.c.super_prop {
                                    self.lenient = true;
                                }
                            } else {
                                return Err(E::Bad);
                            }
                            return Ok(n("Super", pos, vec![]));
                        }
                        b"import" => {
                            let p = self.peek()?;
                            if p.k == K::Punct && (eq(p.w, "(") || eq(p.w, ".")) {
                                return Err(E::Unspec);
                            }
                            return Err(E::Bad);
                        }
                        _ => {}
                    }
                }
                let t = self.t.clone();
                let id = self.ident(false)?;
                if can_arrow && self.is("=>") {
                    self.ident_ok(&t, true)?;
                    return self.arrow(pos, vec![id], false, noin);
                }
                Ok(id)
            }
            K::Punct => match self.t.w.as_bytes() {
                b"(" => self.paren(can_arrow, noin),
                b"[" => {
                    self.next()?;
                    let mut l = Vec::with_capacity(4);
                    let mut tcomma = false;
                    while !self.is("]") {
                        if self.eat(",")? {
                            l.push(V::Null);
                            continue;
                        }
                        let at = self.t.s;
                        let spread = self.eat("...")?;
                        let mut x = self.assign(false)?;
                        if spread {
                            x = n("SpreadElement", at, vec![("argument", vn(x))]);
                        }
                        l.push(vn(x));
                        if !self.is("]") {
                            self.need(",")?;
                            tcomma = spread;
                        }
                    }
                    self.next()?;
                    let mut a = n("ArrayExpression", pos, vec![("elements", V::List(l))]);
                    a.tcomma = tcomma;
                    Ok(a)
                }
                b"{" => self.object(),
                b"/" | b"/=" => {
                    let nl = self.t.nl;
                    let pe = self.prev_end;
                    self.t = self.lx.regex(pos, nl)?;
                    self.prev_end = pe;
                    let t = self.t.clone();
                    if !flags_ok(&t.v2) || !pattern_ok(&t.v) {
                        self.lenient = true;
                    }
                    self.next()?;
                    let raw = self.raw(t.s, t.e);
                    let r = n("", t.s, vec![("pattern", V::Str(t.v)), ("flags", V::Str(t.v2))]);
                    Ok(n("Literal", pos, vec![("raw", V::Str(raw)), ("regex", vn(r))]))
                }
                _ => Err(E::Bad),
            },
        }
    }

    /// A parenthesized expression or arrow function parameters.
    fn paren(&mut self, can_arrow: bool, noin: bool) -> R<N> {
        let pos = self.t.s;
        let save = (self.cover, self.yield_seen, self.await_seen);
        self.cover = false;
        self.yield_seen = false;
        self.await_seen = false;
        self.next()?;
        let mut l: Vec<N> = Vec::with_capacity(4);
        let mut rest = false;
        let mut comma = false;
        let at = self.t.s;
        while !self.is(")") {
            comma = false;
            if self.is("...") {
                let q = self.t.s;
                self.next()?;
                let x = self.target()?;
                l.push(n("RestElement", q, vec![("argument", vn(x))]));
                rest = true;
                break;
            }
            l.push(self.assign(false)?);
            if self.is(")") {
                break;
            }
            self.need(",")?;
            comma = true;
        }
        self.need(")")?;
        if can_arrow && self.is("=>") && !self.t.nl {
            if self.yield_seen || self.await_seen {
                return Err(E::Bad);
            }
            let mut ps = Vec::with_capacity(4);
            for x in l {
                if x.is("RestElement") {
                    ps.push(x);
                } else {
                    ps.push(self.to_elem(x)?);
                }
            }
            self.cover = save.0;
            self.yield_seen = save.1;
            self.await_seen = save.2;
            return self.arrow(pos, ps, false, noin);
        }
        if l.len() == 0 || rest || comma || self.cover {
            return Err(E::Bad);
        }
        self.cover = save.0;
        self.yield_seen |= save.1;
        self.await_seen |= save.2;
        let mut x = if l.len() == 1 {
            l.pop().unwrap()
        } else {
            let mut m = Vec::with_capacity(4);
            for y in l {
                m.push(vn(y));
            }
            n("SequenceExpression", at, vec![("expressions", V::List(m))])
        };
        x.paren = true;
        Ok(x)
    }

    fn object(&mut self) -> R<N> {
        let pos = self.t.s;
        self.next()?;
        let mut l = Vec::with_capacity(4);
        let mut tcomma = false;
        let mut protos = 0;
        while !self.is("}") {
            let at = self.t.s;
            let mut spread = false;
            if self.eat("...")? {
                spread = true;
                let x = self.assign(false)?;
                l.push(vn(n("SpreadElement", at, vec![("argument", vn(x))])));
            } else {
                let (asy, gen, acc) = self.modifiers(false)?;
                let t = self.t.clone();
                let (key, computed) = self.key()?;
                if acc.len() > 0 || asy || gen {
                    if !self.is("(") {
                        return Err(E::Bad);
                    }
                    let arity = if eq(acc, "get") {
                        0
                    } else if eq(acc, "set") {
                        1
                    } else {
                        2
                    };
                    let f = self.method(gen, asy, arity, false)?;
                    let kind = if acc.len() > 0 { acc } else { "init" };
                    l.push(vn(property(at, key, computed, f, kind, acc.len() == 0, false)));
                } else if self.is("(") {
                    let f = self.method(false, false, 2, false)?;
                    l.push(vn(property(at, key, computed, f, "init", true, false)));
                } else if self.eat(":")? {
                    if !computed && same(&t.v, b"__proto__") {
                        protos += 1;
                        if protos > 1 {
                            self.lenient = true;
                        }
                    }
                    let v = self.assign(false)?;
                    l.push(vn(property(at, key, computed, v, "init", false, false)));
                } else {
                    self.ident_ok(&t, false)?;
                    let id = n("Identifier", t.s, vec![("name", V::Str(t.v))]);
                    let v = if self.is("=") {
                        self.next()?;
                        let id = self.to_pat(id)?;
                        let r = self.assign_checked(false)?;
                        self.cover = true;
                        n("AssignmentPattern", t.s, vec![("left", vn(id)), ("right", vn(r))])
                    } else {
                        id
                    };
                    l.push(vn(property(at, key, computed, v, "init", false, true)));
                }
            }
            if !self.is("}") {
                self.need(",")?;
                tcomma = spread;
            }
        }
        self.next()?;
        let mut o = n("ObjectExpression", pos, vec![("properties", V::List(l))]);
        o.tcomma = tcomma;
        Ok(o)
    }

    fn template(&mut self, tagged: bool) -> R<N> {
        let pos = self.t.s;
        let mut quasis = Vec::with_capacity(4);
        let mut exprs = Vec::with_capacity(4);
        loop {
            let t = self.t.clone();
            if t.badesc {
                return Err(if tagged { E::Unspec } else { E::Bad });
            }
            let v = n("", t.s, vec![("cooked", V::Str(t.v)), ("raw", V::Str(t.v2))]);
            quasis.push(vn(n("TemplateElement", t.s, vec![("value", vn(v)), ("tail", V::Bool(t.tail))])));
            self.next()?;
            if t.tail {
                break;
            }
            exprs.push(vn(self.expression(false)?));
            if !self.is("}") {
                return Err(E::Bad);
            }
            let (s, nl) = (self.t.s, self.t.nl);
            self.t = self.lx.template(s, nl)?;
        }
        Ok(n("TemplateLiteral", pos, vec![("quasis", V::List(quasis)), ("expressions", V::List(exprs))]))
    }
}

/// Is the token what follows the name of a class field (not in ES2020)?
fn field(p: &Tok) -> R<()> {
    if p.k == K::Punct && (eq(p.w, "=") || eq(p.w, ";") || eq(p.w, "}")) {
        return Err(E::Field);
    }
    Ok(())
}

fn set(x: &mut N, k: &str, v: V) {
    for (n, slot) in x.f.iter_mut() {
        if eq(n, k) {
            *slot = v;
            return;
        }
    }
}

fn property(pos: usize, key: N, computed: bool, value: N, kind: &'static str, method: bool, short: bool) -> N {
    n(
        "Property",
        pos,
        vec![
            ("key", vn(key)),
            ("computed", V::Bool(computed)),
            ("value", vn(value)),
            ("kind", V::S(kind)),
            ("method", V::Bool(method)),
            ("shorthand", V::Bool(short)),
        ],
    )
}

fn func(ty: &'static str, pos: usize, id: Option<N>, ps: Vec<V>, body: N, gen: bool, asy: bool) -> N {
    n(
        ty,
        pos,
        vec![
            ("id", opt(id)),
            ("params", V::List(ps)),
            ("body", vn(body)),
            ("generator", V::Bool(gen)),
            ("expression", V::Bool(false)),
            ("async", V::Bool(asy)),
        ],
    )
}

/// Distinct known flags.
fn flags_ok(f: &[u8]) -> bool {
    let mut seen = 0u32;
    for c in f {
        let b = match *c {
            b'g' => 1,
            b'i' => 2,
            b'm' => 4,
            b's' => 8,
            b'y' => 16,
            _ => return false, // `u` asks for stricter patterns
        };
        if seen & b != 0 {
            return false;
        }
        seen |= b;
    }
    true
}

/// Clearly a valid pattern (a sufficient condition).
fn pattern_ok(p: &[u8]) -> bool {
    let mut i = 0;
    let mut depth = 0;
    let mut atom = false;
    while i < p.len() {
        let c = p[i];
        i += 1;
        match c {
            b'\\' => {
                if i >= p.len() {
                    return false;
                }
                let d = p[i];
                i += 1;
                atom = d != b'b' && d != b'B';
                if d == b'k' || d == b'c' {
                    return false;
                }
            }
            b'[' => {
                while i < p.len() && p[i] != b']' {
                    if p[i] == b'-' {
                        return false;
                    }
                    if p[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
                if i >= p.len() {
                    return false;
                }
                i += 1;
                atom = true;
            }
            b'(' => {
                if i < p.len() && p[i] == b'?' {
                    return false;
                }
                depth += 1;
                atom = false;
            }
            b')' => {
                if depth == 0 {
                    return false;
                }
                depth -= 1;
                atom = true;
            }
            b'*' | b'+' | b'?' => {
                if !atom {
                    return false;
                }
                if i < p.len() && p[i] == b'?' {
                    i += 1;
                }
                atom = false;
            }
            b'{' | b'}' => return false,
            b'|' | b'^' | b'$' => atom = false,
            _ => atom = true,
        }
    }
    depth == 0
}
