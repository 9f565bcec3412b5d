mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String {
    let l: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", l.join(","))
}

fn dump(e: &Engine, out: &mut dyn Write, jobs: &[(String, Vec<u64>)]) {
    for (i, s) in e.stats.iter().enumerate() {
        let reach: Vec<String> = s.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        let _ = writeln!(
            out,
            "{{\"t\":\"job\",\"job\":{},\"name\":{},\"paths\":{},\"done\":{},\"assumed\":{},\"panics\":{},\"fails\":{},\"hangs\":{},\"errs\":{},\"forks\":{},\"insts\":{},\"pending\":{},\"asserts\":{},\"maxsteps\":{},\"maxvars\":{},\"reach\":{{{}}}}}",
            i, js(&format!("{}{:?}", jobs[i].0, jobs[i].1)), s.paths, s.done, s.assumed, s.panics, s.fails, s.hangs, s.errs, s.forks, s.insts, s.pending, s.asserts, s.maxsteps, s.maxvars, reach.join(",")
        );
    }
    let q = &e.pool.st;
    let _ = writeln!(
        out,
        "{{\"t\":\"solver\",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"splits\":{},\"cache_hits\":{},\"ms\":{},\"terms\":{}}}",
        q.queries, q.sat, q.unsat, q.unknown, q.part, q.cache_hits, q.ns / 1_000_000, e.pool.n.len()
    );
    for v in &e.viol {
        let _ = writeln!(out, "{{\"t\":\"viol\",\"job\":{},\"kind\":{},\"code\":{},\"what\":{},\"steps\":{},\"inputs\":{}}}", v.job, js(v.kind), v.code, js(&v.what), v.steps, nums(&v.inputs));
    }
    for s in &e.samples {
        let hex: String = s.notes.iter().map(|b| format!("{:02x}", b)).collect();
        let _ = writeln!(out, "{{\"t\":\"sample\",\"job\":{},\"steps\":{},\"inputs\":{},\"notes\":\"{}\"}}", s.job, s.steps, nums(&s.inputs), hex);
    }
    for (j, m, i) in &e.errs {
        let _ = writeln!(out, "{{\"t\":\"err\",\"job\":{},\"what\":{},\"inputs\":{}}}", j, js(m), nums(i));
    }
    for (i, c) in e.cov.iter().enumerate() {
        let n = c.iter().filter(|x| **x != 0).count();
        if n > 0 {
            let bits: String = c.iter().map(|x| if *x != 0 { '1' } else { '0' }).collect();
            let _ = writeln!(out, "{{\"t\":\"cov\",\"f\":{},\"bits\":\"{}\"}}", js(&e.m.funcs[i].pretty), bits);
        }
    }
    if e.profile {
        let mut h: Vec<_> = e.hist.iter().collect();
        h.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, pc), n) in h.into_iter().take(40) {
            let _ = writeln!(out, "{{\"t\":\"hot\",\"n\":{},\"f\":{},\"pc\":{}}}", n, js(&e.m.funcs[*f as usize].pretty), pc);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ir = String::new();
    let mut jobs: Vec<(String, Vec<u64>)> = vec![];
    let (mut workers, mut steps, mut time, mut out, mut frontier, mut seed, mut samples, mut maxv, mut noverify, mut profile) = (8usize, 3_000_000u64, 3600.0f64, String::from("/dev/stdout"), 3000usize, 1u64, 20usize, 100usize, false, false);
    let mut i = 1;
    while i < a.len() {
        let v = |i: usize| a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ir" => ir = v(i),
            "--job" => {
                let s = v(i);
                let mut p = s.split(':');
                let n = p.next().unwrap().to_string();
                jobs.push((n, p.map(|x| x.parse().unwrap()).collect()));
            }
            "--workers" => workers = v(i).parse().unwrap(),
            "--steps" => steps = v(i).parse().unwrap(),
            "--time" => time = v(i).parse().unwrap(),
            "--out" => out = v(i),
            "--frontier" => frontier = v(i).parse().unwrap(),
            "--seed" => seed = v(i).parse().unwrap(),
            "--samples" => samples = v(i).parse().unwrap(),
            "--maxviol" => maxv = v(i).parse().unwrap(),
            "--noverify" => {
                noverify = true;
                i -= 1
            }
            "--profile" => {
                profile = true;
                i -= 1
            }
            x => panic!("option {}", x),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(time);
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ir)));
    let mut e = Engine::new(m);
    e.max_steps = steps;
    e.max_viol = maxv;
    e.nsamples = samples;
    e.rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    e.pool.verify = !noverify;
    e.profile = profile;
    e.deadline = Some(deadline);
    let mut q: VecDeque<State> = VecDeque::new();
    for (k, (n, args)) in jobs.iter().enumerate() {
        e.stats.push(JobStat::default());
        match e.init_state(k as u32, n, args) {
            Ok(s) => q.push_back(s),
            Err(x) => {
                eprintln!("symex: {}", x);
                std::process::exit(3);
            }
        }
    }
    let tload = t0.elapsed();
    // breadth-first until there is enough work to share
    while q.len() < frontier && Instant::now() < deadline {
        let mut s = match q.pop_front() {
            Some(s) => s,
            None => break,
        };
        let ended = e.run_path(&mut s, true);
        let w: Vec<State> = e.work.drain(..).collect();
        q.extend(w);
        if !ended {
            q.push_back(s);
        }
    }
    let mut o = String::new();
    let tbfs = t0.elapsed();
    let _ = writeln!(o, "{{\"t\":\"phase\",\"load_ms\":{},\"bfs_ms\":{},\"frontier\":{}}}", tload.as_millis(), tbfs.as_millis(), q.len());
    let states: Vec<State> = q.into_iter().collect();
    let ctr: &'static AtomicU64 = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const AtomicU64) };
    let n = states.len();
    let w = workers.min(n.max(1));
    let mut pids = vec![];
    if n > 0 {
        for k in 0..w {
            let pid = unsafe { fork() };
            if pid == 0 {
                // worker
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let jn = e.stats.len();
                    e.stats = vec![JobStat::default(); jn];
                    e.viol.clear();
                    e.samples.clear();
                    e.errs.clear();
                    e.hist.clear();
                    e.pool.st = expr::Stats { queries: 0, sat: 0, unsat: 0, unknown: 0, part: 0, cache_hits: 0, ns: 0 };
                    e.rng = e.rng.wrapping_add((k as u64 + 1).wrapping_mul(0x1234567));
                    let mut states: Vec<Option<State>> = states.into_iter().map(Some).collect();
                    loop {
                        let j = ctr.fetch_add(1, Ordering::SeqCst) as usize;
                        if j >= n {
                            break;
                        }
                        let s = states[j].take().unwrap();
                        e.work.push(s);
                        while let Some(mut s) = e.work.pop() {
                            if Instant::now() > deadline {
                                e.stats[s.job as usize].pending += 1;
                                continue;
                            }
                            if !e.run_path(&mut s, false) {
                                e.stats[s.job as usize].pending += 1;
                            }
                        }
                    }
                    let mut f = std::fs::File::create(format!("{}.w{}", out, k)).unwrap();
                    let mut buf: Vec<u8> = vec![];
                    dump(&e, &mut buf, &jobs);
                    f.write_all(&buf).unwrap();
                }));
                unsafe { _exit(if r.is_ok() { 0 } else { 4 }) }
            }
            pids.push(pid);
        }
    }
    let mut buf: Vec<u8> = o.into_bytes();
    dump(&e, &mut buf, &jobs);
    let mut bad = false;
    for p in pids {
        let mut st = 0i32;
        unsafe { waitpid(p, &mut st, 0) };
        if st != 0 {
            bad = true;
        }
    }
    if n > 0 {
        for k in 0..w {
            let p = format!("{}.w{}", out, k);
            match std::fs::read(&p) {
                Ok(b) => buf.extend(b),
                Err(_) => bad = true,
            }
            let _ = std::fs::remove_file(&p);
        }
    }
    let ver = unsafe { std::ffi::CStr::from_ptr(z3::Z3_get_full_version()).to_string_lossy().into_owned() };
    let s = format!("{{\"t\":\"end\",\"ok\":{},\"ms\":{},\"z3\":{}}}\n", !bad, t0.elapsed().as_millis(), js(&ver));
    buf.extend(s.into_bytes());
    std::fs::write(&out, buf).unwrap();
    if bad {
        std::process::exit(4);
    }
}
