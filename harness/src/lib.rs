pub mod cmp;
pub mod edit;
pub mod js;
pub mod list;
mod rt;
pub mod tpl;
#[cfg(feature = "wasm")]
mod wrap;
use serde::Serialize;

// what a failed check means
pub const TREE: u32 = 10; // accepted with a wrong tree
pub const ACCEPTS: u32 = 11; // accepts what is not a program
pub const REJECTS: u32 = 12; // rejects a program
pub const SER: u32 = 13; // the tree does not serialize
pub const LINE: u32 = 14; // an error is reported on the wrong line
pub const COL: u32 = 15; // an error is reported at the wrong column
pub const NAME: u32 = 16; // an error names another token
pub const WRAP: u32 = 17; // the wrapper gives something else than the parser

pub const KIND: u32 = 18; // an error of the wrong kind
pub const TEXT: u32 = 19; // an error that does not say what it is

#[cfg(not(panic = "abort"))]
thread_local! {
    /// the sources judged, for the reports of the native replay
    pub static SRC: std::cell::RefCell<Vec<(bool, Vec<u32>)>> = std::cell::RefCell::new(Vec::new());
}

/// Runs a harness by name (native replay).
#[cfg(not(panic = "abort"))]
pub fn run_job(name: &str, a: u64, b: u64) {
    match name {
        "h_raw" => h_raw(a, b),
        "h_tpl" => h_tpl(a),
        "h_kind" => h_kind(a),
        "h_edit" => h_edit(a, b),
        #[cfg(feature = "wasm")]
        "h_wasm" => wrap::h_wasm(a),
        #[cfg(feature = "wasm")]
        "h_wraw" => wrap::h_wraw(a, b),
        _ => panic!("no such harness"),
    }
}

fn text(src: &[u32], _module: bool) -> String {
    #[cfg(not(panic = "abort"))]
    SRC.with(|s| s.borrow_mut().push((_module, src.to_vec())));
    let mut v: Vec<u8> = Vec::with_capacity(src.len() * 2 + 8);
    for c in src {
        js::lex::push_cp(&mut v, *c);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

fn parse(src: &[u32], module: bool) -> Result<giron::EstreeNode, giron::GironError> {
    let s = text(src, module);
    if module {
        giron::parse_module(s)
    } else {
        giron::parse_script(s)
    }
}

/// The line and column of a position.
pub fn place(src: &[u32], at: usize) -> (usize, usize) {
    let (mut line, mut col) = (1, 1);
    let mut i = 0;
    while i < at {
        let c = src[i];
        if c == 10 || c == 0x2028 || c == 0x2029 || c == 13 && !(i + 1 < src.len() && src[i + 1] == 10) {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
        i += 1;
    }
    (line, col)
}

/// Parses the code points with the crate and judges the outcome by the oracle.
pub fn judge(src: &[u32], module: bool) {
    let r = parse(src, module);
    let a = js::run(src, module);
    match r {
        Ok(t) => {
            let mut o = wasm_bindgen::Out::new();
            rt::check(t.serialize(&mut o).is_ok(), SER);
            rt::note(&o.b);
            match &a {
                js::Answer::Tree(w) | js::Answer::Lenient(w) => {
                    rt::reach(1);
                    let mut cx = cmp::Cx { diff: 0, bad: false, field: false };
                    cmp::compare(&t, w, &mut cx);
                    rt::check(!cx.bad && cx.diff == 0, TREE);
                }
                js::Answer::Reject => rt::check(false, ACCEPTS),
                js::Answer::Field => rt::check(cmp::has_field(&t), ACCEPTS),
                js::Answer::Unspec => rt::reach(3),
            }
            std::mem::forget(t);
        }
        Err(e) => {
            rt::note(b"rejected");
            rt::check(e.line >= 1 && e.line <= place(src, src.len()).0, LINE);
            match &a {
                js::Answer::Tree(_) => rt::check(false, REJECTS),
                js::Answer::Lenient(_) => rt::reach(4),
                js::Answer::Reject => rt::reach(2),
                js::Answer::Unspec | js::Answer::Field => rt::reach(3),
            }
            std::mem::forget(e);
        }
    }
    std::mem::forget(a);
}

/// A complete program and then a token that can not follow any program: the error is reported
/// where that token starts.
pub fn judge_place(src: &[u32], mark: usize, module: bool) {
    let a = js::run(&src[..mark], module);
    let known = match &a {
        js::Answer::Tree(_) => true,
        _ => false,
    };
    std::mem::forget(a);
    // the token may have ended up within a comment
    let whole = js::run(src, module);
    let known = known && matches!(whole, js::Answer::Reject);
    std::mem::forget(whole);
    if !known {
        rt::reach(5);
        return;
    }
    match parse(src, module) {
        Ok(_) => rt::check(false, ACCEPTS),
        Err(e) => {
            rt::note(&[e.line as u8, e.col as u8]);
            let (line, col) = place(src, mark);
            rt::check(e.line == line, LINE);
            rt::check(e.col == col, COL);
            if let giron::GironErrorType::UnexpectedToken(s) = &e.errortype {
                // the token that ends the source is named by its text
                let s = s.as_bytes();
                let mut same = s.len() <= src.len() - mark;
                let mut i = mark;
                while same && i < src.len() {
                    same = src[i] == if i - mark < s.len() { s[i - mark] as u32 } else { 32 };
                    i += 1;
                }
                rt::check(same, NAME);
                rt::reach(7);
            }
            rt::reach(6);
            std::mem::forget(e);
        }
    }
}

/// The kind of an error that has a name of its own, and what it says.
fn kind_of(e: &giron::GironErrorType) -> (u8, &'static str) {
    use giron::GironErrorType as G;
    use js::parse::*;
    match e {
        G::IllegalReturn => (ILLEGAL_RETURN, "Illegal return statement"),
        G::IllegalBreak => (ILLEGAL_BREAK, "Illegal break statement"),
        G::NoIterationStatement => (NO_ITERATION, "Illegal continue statement: no surrounding iteration statement"),
        G::StrictWith => (STRICT_WITH, "Strict mode code may not include a with statement"),
        G::StrictFunction => {
            (STRICT_FUNCTION, "In strict mode code, functions can only be declared at top level or inside a block.")
        }
        G::NewlineAfterThrow => (NEWLINE_AFTER_THROW, "Illegal newline after throw"),
        G::MultipleDefaultsInSwitch => (TWO_DEFAULTS, "More than one default clause in switch statement"),
        G::MissingInitializer => (MISSING_INIT, "Missing initializer in destructuring declaration"),
        G::GeneratorInSingleStatementContext => {
            (GENERATOR_BODY, "Generators can only be declared at the top level or inside a block.")
        }
        G::MissingFunctionName => (NO_FUNCTION_NAME, "Function statements require a function name"),
        G::InvalidLhsInAssignment => (LHS_ASSIGN, "Invalid left-hand side in assignment"),
        G::InvalidLhsInPrefixOp => (LHS_PREFIX, "Invalid left-hand side expression in prefix operation"),
        G::InvalidLhsInPostfixOp => (LHS_POSTFIX, "Invalid left-hand side expression in postfix operation"),
        G::InvalidLhsInFor => (LHS_FOR, "Invalid left-hand side in for-loop"),
        G::StaticPrototype => (STATIC_PROTOTYPE, "Classes may not have a static property named 'prototype'"),
        G::UnexpectedStrictReserved => (STRICT_RESERVED, "Unexpected strict mode reserved word"),
        _ => (0, ""),
    }
}

/// A mistake that has a name is reported by that name, where it is, and no other mistake is.
pub fn judge_kind(src: &[u32], module: bool) {
    use js::parse::*;
    let r = parse(src, module);
    let (a, kind, fault) = js::run_kind(src, module);
    if let (Err(e), js::Answer::Reject) = (&r, &a) {
        let (k, says) = kind_of(&e.errortype);
        rt::note(&[k, kind]);
        // the ways in which a target is no target overlap with those of patterns
        let loose = k >= LHS_ASSIGN && k <= LHS_FOR && kind == 0;
        if kind == UNNAMED {
            rt::reach(3);
        } else if kind != 0 {
            rt::check(k == kind, KIND);
            let mut t = String::with_capacity(128);
            let _ = std::fmt::Write::write_fmt(&mut t, format_args!("{}", e));
            rt::check(js::same(t.as_bytes(), says.as_bytes()), TEXT);
            let (line, col) = place(src, fault);
            // the token that makes the mistake; for other kinds the place is not settled
            match kind {
                ILLEGAL_RETURN | STRICT_WITH | STRICT_FUNCTION | NEWLINE_AFTER_THROW | TWO_DEFAULTS | GENERATOR_BODY
                | NO_FUNCTION_NAME | LHS_PREFIX | LHS_POSTFIX | STRICT_RESERVED => {
                    rt::check(e.line == line, LINE);
                    rt::check(e.col == col, COL);
                }
                _ => {}
            }
            rt::reach(8);
        } else {
            rt::check(k == 0 || loose, KIND);
            rt::reach(2);
        }
    } else {
        rt::reach(3);
    }
    std::mem::forget(r);
    std::mem::forget(a);
}

/// Every source of `n` ASCII characters.
#[no_mangle]
pub extern "C-unwind" fn h_raw(n: u64, module: u64) {
    let mut v: Vec<u32> = Vec::with_capacity(64);
    for _ in 0..n {
        v.push(rt::any(128) as u32);
    }
    judge(&v, module != 0);
}

/// Every source a template stands for.
#[no_mangle]
pub extern "C-unwind" fn h_tpl(i: u64) {
    let t = &list::T[i as usize];
    let (s, module) = tpl::source(t);
    match s.mark {
        None => judge(&s.v, module),
        Some(m) => judge_place(&s.v, m, module),
    }
}

/// ... for what the errors say
#[no_mangle]
pub extern "C-unwind" fn h_kind(i: u64) {
    let (s, module) = tpl::source(&list::T[i as usize]);
    judge_kind(&s.v, module);
}

/// Every edit of a program at any place.
#[no_mangle]
pub extern "C-unwind" fn h_edit(i: u64, kind: u64) {
    let (v, module) = edit::edited(i as usize, kind);
    judge(&v, module);
}
