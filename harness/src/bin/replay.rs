//! Runs the harnesses natively on given values (the engine's counterexamples and path samples), and
//! the crate against the oracle on given sources.
//!   replay run          stdin: lines "job arg... : value..."; one JSON line out per line
//!   replay src          stdin: lines "s|m TEXT" (TEXT with \n \r \t \\ \uXXXX escapes)
//!   replay list         the templates
//!   replay parse s|m    parses the text on stdin with the crate alone, on the main thread's stack
use std::cell::RefCell;
use std::io::{BufRead, Write};
use vh::js::{Answer, N, V};

struct St {
    vals: Vec<u64>,
    i: usize,
    assumed: bool,
    failed: Vec<u32>,
    reached: Vec<u32>,
    notes: Vec<u8>,
}
thread_local! {
    static ST: RefCell<St> = RefCell::new(St { vals: vec![], i: 0, assumed: true, failed: vec![], reached: vec![], notes: vec![] });
}
struct Stop;

#[no_mangle]
pub extern "C-unwind" fn sym_u8(n: u32) -> u8 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let v = if s.i < s.vals.len() { s.vals[s.i] } else { 0 };
        s.i += 1;
        (v % n as u64) as u8
    })
}
#[no_mangle]
pub extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        ST.with(|s| s.borrow_mut().assumed = false);
        std::panic::resume_unwind(Box::new(Stop));
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_check(c: bool, code: u32) {
    if !c {
        ST.with(|s| s.borrow_mut().failed.push(code));
        std::panic::resume_unwind(Box::new(Stop));
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_reach(code: u32) {
    ST.with(|s| s.borrow_mut().reached.push(code));
}
#[no_mangle]
pub extern "C-unwind" fn sym_note(p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    ST.with(|s| s.borrow_mut().notes.extend_from_slice(b));
}
#[no_mangle]
pub extern "C-unwind" fn sym_conc(v: u64) -> u64 {
    v
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unesc(s: &str) -> Vec<u32> {
    let mut v = vec![];
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' && i + 1 < c.len() {
            i += 1;
            match c[i] {
                'n' => v.push(10),
                'r' => v.push(13),
                't' => v.push(9),
                'u' => {
                    let h: String = c[i + 1..i + 5].iter().collect();
                    let mut x = u32::from_str_radix(&h, 16).unwrap();
                    i += 4;
                    if x >= 0xdc00 && x < 0xe000 {
                        let hi = v.pop().unwrap();
                        x = 0x10000 + (hi - 0xd800) * 1024 + (x - 0xdc00);
                    }
                    v.push(x)
                }
                x => v.push(x as u32),
            }
        } else {
            v.push(c[i] as u32)
        }
        i += 1;
    }
    v
}

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

fn guarded<F: FnOnce() + std::panic::UnwindSafe>(f: F) -> String {
    match std::panic::catch_unwind(f) {
        Ok(()) => "ok".into(),
        Err(e) => {
            if e.is::<Stop>() {
                ST.with(|s| {
                    let s = s.borrow();
                    if !s.assumed {
                        "assumed".to_string()
                    } else {
                        format!("check {}", s.failed[0])
                    }
                })
            } else {
                LAST.with(|l| format!("panic {}", l.borrow()))
            }
        }
    }
}

fn val(v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Bool(b) => b.to_string(),
        V::S(s) => format!("\"{}\"", s),
        V::Str(s) => format!("\"{}\"", esc(&String::from_utf8_lossy(s))),
        V::Num(x) if x.is_infinite() => "null".into(),
        V::Num(x) => format!("{:?}", x),
        V::Node(n) => node(n),
        V::List(l) => format!("[{}]", l.iter().map(val).collect::<Vec<_>>().join(",")),
    }
}
fn node(n: &N) -> String {
    let mut p = vec![];
    if n.ty.len() > 0 {
        p.push(format!("\"type\":\"{}\"", n.ty));
    }
    for (k, v) in &n.f {
        p.push(format!("\"{}\":{}", k, val(v)));
    }
    format!("{{{}}}", p.join(","))
}

fn job(line: &str) -> String {
    let (a, b) = line.split_once(':').unwrap();
    let a: Vec<&str> = a.split_whitespace().collect();
    let vals: Vec<u64> = b.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let p: Vec<u64> = a[1..].iter().map(|x| x.parse().unwrap()).collect();
    ST.with(|s| *s.borrow_mut() = St { vals, i: 0, assumed: true, failed: vec![], reached: vec![], notes: vec![] });
    vh::SRC.with(|s| s.borrow_mut().clear());
    let name = a[0].to_string();
    let g = |i: usize| p.get(i).copied().unwrap_or(0);
    let out = guarded(|| vh::run_job(&name, g(0), g(1)));
    let src = vh::SRC.with(|s| {
        s.borrow().iter().map(|t| {
            let c: String = t.1.iter().map(|c| char::from_u32(*c).unwrap_or('\u{fffd}')).collect();
            format!("\"{} {}\"", if t.0 { "m" } else { "s" }, esc(&c))
        }).collect::<Vec<_>>().join(",")
    });
    ST.with(|s| {
        let s = s.borrow();
        format!(
            "{{\"out\":\"{}\",\"reach\":{:?},\"note\":\"{}\",\"used\":{},\"src\":[{}]}}",
            esc(&out),
            s.reached,
            hex(&s.notes),
            s.i,
            src
        )
    })
}

fn src(line: &str) -> String {
    let module = line.starts_with('m');
    let cps = unesc(line.get(2..).unwrap_or(""));
    let text: String = cps.iter().map(|c| char::from_u32(*c).unwrap()).collect();
    let t2 = text.clone();
    let got = std::panic::catch_unwind(move || {
        let r = if module { giron::parse_module(t2) } else { giron::parse_script(t2) };
        match r {
            Ok(n) => format!("\"tree\",\"got\":{}", serde_json::to_string(&n).unwrap()),
            Err(e) => format!("\"rejected\",\"error\":\"{}\",\"line\":{},\"col\":{},\"type\":\"{}\"", esc(&e.to_string()), e.line, e.col, esc(&format!("{:?}", e.errortype))),
        }
    })
    .unwrap_or_else(|_| LAST.with(|l| format!("\"panic\",\"at\":\"{}\"", esc(&l.borrow()))));
    let c2 = cps.clone();
    let want = std::panic::catch_unwind(move || match vh::js::run(&c2, module) {
        Answer::Tree(n) => format!("\"tree\",\"want\":{}", node(&n)),
        Answer::Lenient(n) => format!("\"lenient\",\"want\":{}", node(&n)),
        Answer::Reject => {
            let (_, kind, at) = vh::js::run_kind(&c2, module);
            let (line, col) = vh::place(&c2, at);
            if kind == 0 { "\"reject\"".into() } else { format!("\"reject\",\"kind\":{},\"place\":[{},{}]", kind, line, col) }
        }
        Answer::Unspec => "\"unspec\"".into(),
        Answer::Field => "\"field\"".into(),
    })
    .unwrap_or_else(|_| "\"ORACLE PANIC\"".into());
    ST.with(|s| *s.borrow_mut() = St { vals: vec![], i: 0, assumed: true, failed: vec![], reached: vec![], notes: vec![] });
    let c3 = cps.clone();
    let verdict = guarded(move || vh::judge(&cps, module));
    ST.with(|s| *s.borrow_mut() = St { vals: vec![], i: 0, assumed: true, failed: vec![], reached: vec![], notes: vec![] });
    let of_error = guarded(move || vh::judge_kind(&c3, module));
    format!("{{\"verdict\":\"{}\",\"of_error\":\"{}\",\"oracle\":{},\"crate\":{}}}", esc(&verdict), esc(&of_error), want, got)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        LAST.with(|l| *l.borrow_mut() = s);
    }));
    let mode = std::env::args().nth(1).unwrap_or_default();
    if mode == "list" {
        for (i, t) in vh::list::T.iter().enumerate() {
            for h in t.s.split('⟨').skip(1) {
                let n = h.split('⟩').next().unwrap();
                if n.starts_with(['{', '}']) {
                    continue;
                }
                let n = n.trim_start_matches('!').split(['#', '<', '>']).next().unwrap();
                assert!(vh::tpl::known(n.as_bytes()), "no vocabulary {} in {}", n, t.s);
            }
            println!("tpl\t{}\t{}\t{}\t{}\t{}", i, t.p, t.m, t.t, esc(t.s));
        }
        for (i, e) in vh::list::EDITS.iter().enumerate() {
            println!("edit\t{}\tC01\t{}\t{}\t{}", i, e.m as u8, e.t, esc(e.s));
        }
        return;
    }
    if mode == "parse" {
        let module = std::env::args().nth(2).map_or(false, |x| x == "m");
        let mut t = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).unwrap();
        let r = if module { giron::parse_module(t) } else { giron::parse_script(t) };
        match r {
            Ok(n) => println!("tree {}", serde_json::to_string(&n).unwrap().len()),
            Err(e) => println!("rejected {}", e.line),
        }
        return;
    }
    let h = std::thread::Builder::new()
        .stack_size(1 << 28)
        .spawn(move || {
            let o = std::io::stdout();
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let r = if mode == "run" { job(&l) } else { src(&l) };
                let mut o = o.lock();
                writeln!(o, "{}", r).unwrap();
                o.flush().unwrap();
            }
        })
        .unwrap();
    h.join().unwrap();
}
