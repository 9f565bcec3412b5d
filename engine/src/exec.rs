//! The symbolic executor proper: interpreter over IR, path forking, memory.
use crate::expr::*;
use crate::ir::*;
use std::hash::Hasher;
use std::time::Instant;

pub struct Region {
    pub b: Vec<u8>,
    pub s: Vec<u64>, // one bit per byte: byte is symbolic
}
impl Clone for Region {
    fn clone(&self) -> Region {
        Region { b: self.b.clone(), s: self.s.clone() }
    }
}
impl Region {
    fn any(&self, o: usize, n: usize) -> bool {
        if n == 0 {
            return false;
        }
        let (mut w, e) = (o >> 6, (o + n - 1) >> 6);
        if w == e {
            let m = if n == 64 { !0 } else { ((1u64 << n) - 1) << (o & 63) };
            return self.s.get(w).map(|x| x & m != 0).unwrap_or(false);
        }
        if let Some(x) = self.s.get(w) {
            if x >> (o & 63) != 0 {
                return true;
            }
        } else {
            return false;
        }
        w += 1;
        while w < e {
            if self.s.get(w).copied().unwrap_or(0) != 0 {
                return true;
            }
            w += 1;
        }
        let last = (o + n - 1) & 63;
        let m = if last == 63 { !0 } else { (1u64 << (last + 1)) - 1 };
        self.s.get(e).map(|x| x & m != 0).unwrap_or(false)
    }
    fn isset(&self, o: usize) -> bool {
        self.s.get(o >> 6).map(|x| x >> (o & 63) & 1 == 1).unwrap_or(false)
    }
    fn set(&mut self, o: usize) {
        let w = o >> 6;
        if self.s.len() <= w {
            self.s.resize(w + 1, 0);
        }
        self.s[w] |= 1 << (o & 63);
    }
    fn clear(&mut self, o: usize, n: usize) {
        if n == 0 || !self.any(o, n) {
            return;
        }
        for i in o..o + n {
            if let Some(x) = self.s.get_mut(i >> 6) {
                *x &= !(1 << (i & 63));
            }
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub fi: u32,
    pub base: u32,
    pub pc: u32,
    pub sp: u32,
    pub dst: u32,
    pub ndst: u32,
    pub normal: Option<&'static Edge>,
}

#[derive(Clone)]
pub struct State {
    pub job: u32,
    pub regs: Vec<V>,
    pub frames: Vec<Frame>,
    pub gm: Region,
    pub stack: Region,
    pub heap: Region,
    pub sym: FxMap<u64, (E, u8)>,
    pub free: Vec<(u32, u32)>,
    pub vars: Vec<u16>,
    pub doms: Vec<Dom>,
    pub extra: Vec<(E, bool)>,
    pub steps: u64,
    pub notes: Vec<V>,
    pub reach: Vec<u32>,
    pub depth: u32,
}

pub enum End {
    Done,
    Assume,
    Panic(String, String),
    Fail(u32),
    Steps,
    Err(String),
}

pub struct Viol {
    pub job: u32,
    pub kind: &'static str,
    pub code: u32,
    pub what: String,
    pub inputs: Vec<u64>,
    pub steps: u64,
}

pub struct Sample {
    pub job: u32,
    pub inputs: Vec<u64>,
    pub notes: Vec<u8>,
    pub steps: u64,
}

#[derive(Default, Clone)]
pub struct JobStat {
    pub paths: u64,
    pub done: u64,
    pub assumed: u64,
    pub panics: u64,
    pub fails: u64,
    pub hangs: u64,
    pub errs: u64,
    pub forks: u64,
    pub insts: u64,
    pub pending: u64,
    pub asserts: u64,
    pub maxsteps: u64,
    pub maxvars: u64,
    pub seen: u64,
    pub reach: std::collections::BTreeMap<u32, u64>,
}

pub struct Engine {
    pub m: &'static Module,
    pub funcs: Vec<Option<&'static Func>>,
    pub kind: Vec<Kind>,
    pub cov: Vec<Vec<u8>>,
    pub pool: Pool,
    pub work: Vec<State>,
    pub max_steps: u64,
    pub viol: Vec<Viol>,
    pub samples: Vec<Sample>,
    pub stats: Vec<JobStat>,
    pub max_viol: usize,
    pub nsamples: usize,
    pub rng: u64,
    pub errs: Vec<(u32, String, Vec<u64>)>,
    pub tmp: Vec<V>,
    pub extcov: std::collections::BTreeSet<String>,
    pub hist: FxMap<(u32, u32), u64>,
    pub profile: bool,
    pub deadline: Option<Instant>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Normal,
    Panic,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
}

type X<T> = Result<T, End>;
fn err<T>(s: String) -> X<T> {
    Err(End::Err(s))
}

impl Engine {
    pub fn new(m: &'static Module) -> Engine {
        let n = m.funcs.len();
        let mut kind = vec![Kind::Normal; n];
        for (i, f) in m.funcs.iter().enumerate() {
            let s = &f.name;
            kind[i] = if s.contains("9panicking") || s.contains("18handle_alloc_error") || s.contains("rust_foreign_exception") || s.contains("17capacity_overflow") {
                Kind::Panic
            } else if s.contains("___rust_no_alloc_shim") {
                Kind::Nop
            } else if s.contains("___rust_alloc_zeroed") || s.contains("___rdl_alloc_zeroed") {
                Kind::AllocZ
            } else if s.contains("___rust_alloc") || s.contains("___rdl_alloc") {
                Kind::Alloc
            } else if s.contains("___rust_dealloc") || s.contains("___rdl_dealloc") {
                Kind::Dealloc
            } else if s.contains("___rust_realloc") || s.contains("___rdl_realloc") {
                Kind::Realloc
            } else {
                Kind::Normal
            };
        }
        Engine {
            m,
            funcs: vec![None; n],
            kind,
            cov: vec![vec![]; n],
            pool: Pool::new(),
            work: vec![],
            max_steps: 3_000_000,
            viol: vec![],
            samples: vec![],
            stats: vec![],
            max_viol: 200,
            nsamples: 20,
            rng: 1,
            errs: vec![],
            tmp: vec![],
            extcov: Default::default(),
            hist: Default::default(),
            profile: false,
            deadline: None,
        }
    }
    fn func(&mut self, i: u32) -> X<&'static Func> {
        if let Some(f) = self.funcs[i as usize] {
            return Ok(f);
        }
        match self.m.parse_func(i) {
            Ok(f) => {
                let f: &'static Func = Box::leak(Box::new(f));
                self.cov[i as usize] = vec![0; f.nblocks as usize];
                self.funcs[i as usize] = Some(f);
                Ok(f)
            }
            Err(e) => err(format!("ir: {} in {}", e, self.m.funcs[i as usize].pretty)),
        }
    }
    pub fn init_state(&mut self, job: u32, entry: &str, args: &[u64]) -> Result<State, String> {
        let fi = *self.m.fidx.get(entry).ok_or(format!("no entry {}", entry))?;
        let f = match self.func(fi) {
            Ok(f) => f,
            Err(End::Err(e)) => return Err(e),
            _ => return Err("entry".into()),
        };
        let mut regs = vec![c(0); f.nslots as usize];
        for (i, a) in args.iter().enumerate() {
            if i < f.nparams as usize {
                regs[i] = c(*a);
            }
        }
        self.cov[fi as usize][0] = 1;
        Ok(State {
            job,
            regs,
            frames: vec![Frame { f, fi, base: 0, pc: 0, sp: 16, dst: 0, ndst: 0, normal: None }],
            gm: Region { b: self.m.mdata.clone(), s: vec![] },
            stack: Region { b: vec![0; 16], s: vec![] },
            heap: Region { b: vec![0; 16], s: vec![] },
            sym: Default::default(),
            free: vec![],
            vars: vec![],
            doms: vec![],
            extra: vec![],
            steps: 0,
            notes: vec![],
            reach: vec![],
            depth: 0,
        })
    }

    // ---------------------------------------------------------------- memory
    fn read(&mut self, st: &mut State, addr: u64, n: usize) -> X<V> {
        let o = (addr & 0xffff_ffff) as usize;
        let r = match addr >> 32 {
            1 => {
                let b = &self.m.cdata;
                if o + n > b.len() {
                    return err(format!("read out of constants {:x}", addr));
                }
                let mut x = [0u8; 8];
                x[..n].copy_from_slice(&b[o..o + n]);
                return Ok(c(u64::from_le_bytes(x)));
            }
            2 => &st.gm,
            3 => &st.stack,
            4 => &st.heap,
            _ => return err(format!("read at {:x} ({})", addr, self.where_(st))),
        };
        if o + n > r.b.len() {
            return err(format!("read out of region {:x} ({})", addr, self.where_(st)));
        }
        if !r.any(o, n) {
            let mut x = [0u8; 8];
            x[..n].copy_from_slice(&r.b[o..o + n]);
            return Ok(c(u64::from_le_bytes(x)));
        }
        // whole term?
        if r.isset(o) {
            if let Some(&(e, 0)) = st.sym.get(&addr) {
                if self.pool.w[e as usize] as usize == n * 8 {
                    let mut ok = true;
                    for k in 1..n {
                        if !r.isset(o + k) || st.sym.get(&(addr + k as u64)) != Some(&(e, k as u8)) {
                            ok = false;
                            break;
                        }
                    }
                    if ok {
                        return Ok(self.norm(st, V { e, c: 0 }));
                    }
                }
            }
        }
        let mut acc = c(0);
        for k in 0..n {
            let b = if r.isset(o + k) {
                let (e, i) = st.sym[&(addr + k as u64)];
                let x = self.pool.ext(V { e, c: 0 }, i as u32 * 8, 8);
                norm_(&self.pool, st, x)
            } else {
                c(r.b[o + k] as u64)
            };
            acc = if k == 0 { b } else { self.pool.cat(b, 8, acc, 8 * k as u32) };
        }
        Ok(acc)
    }
    fn write(&mut self, st: &mut State, addr: u64, n: usize, v: V) -> X<()> {
        let o = (addr & 0xffff_ffff) as usize;
        let r = match addr >> 32 {
            2 => &mut st.gm,
            3 => &mut st.stack,
            4 => &mut st.heap,
            _ => return err(format!("write at {:x} ({})", addr, self.where_(st))),
        };
        if o + n > r.b.len() {
            return err(format!("write out of region {:x} ({})", addr, self.where_(st)));
        }
        if v.is_c() {
            r.b[o..o + n].copy_from_slice(&v.c.to_le_bytes()[..n]);
            r.clear(o, n);
        } else {
            for k in 0..n {
                r.set(o + k);
                st.sym.insert(addr + k as u64, (v.e, k as u8));
            }
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> X<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let so = (s & 0xffff_ffff) as usize;
        let dof = (d & 0xffff_ffff) as usize;
        let m = self.m;
        // bounds
        let slen = match s >> 32 {
            1 => m.cdata.len(),
            2 => st.gm.b.len(),
            3 => st.stack.b.len(),
            4 => st.heap.b.len(),
            _ => return err(format!("memcpy from {:x} ({})", s, self.where_(st))),
        };
        let dlen = match d >> 32 {
            2 => st.gm.b.len(),
            3 => st.stack.b.len(),
            4 => st.heap.b.len(),
            _ => return err(format!("memcpy to {:x} ({})", d, self.where_(st))),
        };
        if so + n > slen || dof + n > dlen {
            return err(format!("memcpy out of region {:x}<-{:x} {} ({})", d, s, n, self.where_(st)));
        }
        // symbolic entries of the source
        let anys = match s >> 32 {
            2 => st.gm.any(so, n),
            3 => st.stack.any(so, n),
            4 => st.heap.any(so, n),
            _ => false,
        };
        let mut ents: Vec<(u64, (E, u8))> = vec![];
        if anys {
            let r = match s >> 32 {
                2 => &st.gm,
                3 => &st.stack,
                _ => &st.heap,
            };
            for k in 0..n {
                if r.isset(so + k) {
                    ents.push((k as u64, st.sym[&(s + k as u64)]));
                }
            }
        }
        match (s >> 32, d >> 32) {
            (1, 2) => st.gm.b[dof..dof + n].copy_from_slice(&m.cdata[so..so + n]),
            (1, 3) => st.stack.b[dof..dof + n].copy_from_slice(&m.cdata[so..so + n]),
            (1, 4) => st.heap.b[dof..dof + n].copy_from_slice(&m.cdata[so..so + n]),
            (2, 3) => st.stack.b[dof..dof + n].copy_from_slice(&st.gm.b[so..so + n]),
            (2, 4) => st.heap.b[dof..dof + n].copy_from_slice(&st.gm.b[so..so + n]),
            (3, 2) => st.gm.b[dof..dof + n].copy_from_slice(&st.stack.b[so..so + n]),
            (4, 2) => st.gm.b[dof..dof + n].copy_from_slice(&st.heap.b[so..so + n]),
            (3, 4) => st.heap.b[dof..dof + n].copy_from_slice(&st.stack.b[so..so + n]),
            (4, 3) => st.stack.b[dof..dof + n].copy_from_slice(&st.heap.b[so..so + n]),
            (2, 2) => st.gm.b.copy_within(so..so + n, dof),
            (3, 3) => st.stack.b.copy_within(so..so + n, dof),
            (4, 4) => st.heap.b.copy_within(so..so + n, dof),
            _ => unreachable!(),
        }
        let r = match d >> 32 {
            2 => &mut st.gm,
            3 => &mut st.stack,
            _ => &mut st.heap,
        };
        r.clear(dof, n);
        for (k, e) in ents {
            r.set(dof + k as usize);
            st.sym.insert(d + k, e);
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> X<u64> {
        if size > 1 << 26 {
            return err(format!("allocation of {} bytes", size));
        }
        let sz = ((size as u32) + 15) & !15;
        let lo = st.free.len().saturating_sub(24);
        for i in (lo..st.free.len()).rev() {
            let (s, o) = st.free[i];
            if s == sz && (o as u64) % align == 0 {
                st.free.swap_remove(i);
                let (a, b) = (o as usize, (o + sz) as usize);
                if zero {
                    st.heap.b[a..b].fill(0);
                }
                st.heap.clear(a, sz as usize);
                return Ok(HEAP_BASE + o as u64);
            }
        }
        let mut o = st.heap.b.len() as u64;
        let al = align.max(16);
        o = (o + al - 1) / al * al;
        st.heap.b.resize(o as usize + sz as usize, 0);
        Ok(HEAP_BASE + o)
    }
    fn dealloc(&mut self, st: &mut State, p: u64, size: u64) {
        if p >> 32 != 4 {
            return;
        }
        let sz = ((size as u32) + 15) & !15;
        if sz > 0 {
            st.free.push((sz, p as u32));
        }
    }
    pub fn where_(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.frames.iter().rev().take(6) {
            s.push_str(&self.m.funcs[f.fi as usize].pretty);
            s.push_str(&format!("#{} < ", f.pc));
        }
        s
    }

    // ---------------------------------------------------------------- symbolic values
    fn norm(&mut self, st: &State, v: V) -> V {
        if v.e == 0 {
            return v;
        }
        if let Sup::Many(l) = &self.pool.sup[v.e as usize] {
            // few variables left open: fold the others in
            let open = l.iter().filter(|x| single(st, **x, &self.pool).is_none()).count();
            if open <= 1 || (open < l.len() && self.pool.heavy[v.e as usize]) {
                let r = self.fold(st, v.e);
                return norm_(&self.pool, st, r);
            }
            return v;
        }
        norm_(&self.pool, st, v)
    }
    fn fold(&mut self, st: &State, e: E) -> V {
        let l = match &self.pool.sup[e as usize] {
            Sup::Many(l) => l.clone(),
            _ => return V { e, c: 0 },
        };
        let fixed: Vec<(u16, u64)> = l.iter().filter_map(|x| single(st, *x, &self.pool).map(|y| (*x, y))).collect();
        if fixed.is_empty() {
            return V { e, c: 0 };
        }
        let key = self.pool.env_id(&fixed);
        self.pool.subst(e, &|v| fixed.iter().find(|x| x.0 == v).map(|x| x.1), key)
    }
    fn related(&self, st: &State, vars: &mut Vec<u16>) -> Vec<(E, bool)> {
        let mut used = vec![false; st.extra.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, (e, b)) in st.extra.iter().enumerate() {
                if used[i] {
                    continue;
                }
                if let Sup::Many(l) = &self.pool.sup[*e as usize] {
                    if l.iter().any(|v| vars.contains(v)) {
                        used[i] = true;
                        ch = true;
                        out.push((*e, *b));
                        for v in l.iter() {
                            if !vars.contains(v) {
                                vars.push(*v);
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        vars.sort();
        out
    }
    fn domlist(&self, st: &State, vars: &[u16]) -> Vec<(u16, Option<Dom>)> {
        vars.iter().map(|v| (*v, if self.pool.vars[*v as usize].size > 0 { Some(st.doms[*v as usize]) } else { None })).collect()
    }
    /// is the current path feasible with var v restricted to d?
    fn feas_dom(&mut self, st: &State, v: u16, d: &Dom) -> X<bool> {
        let mut vars = vec![v];
        let cons = self.related(st, &mut vars);
        if cons.is_empty() {
            return Ok(true);
        }
        let mut dl = self.domlist(st, &vars);
        for x in dl.iter_mut() {
            if x.0 == v {
                x.1 = Some(*d);
            }
        }
        match self.pool.solve(&cons, &dl) {
            Ok(r) => Ok(r.is_some()),
            Err(e) => err(e),
        }
    }
    fn fork(&mut self, st: &mut State, groups: Vec<Dom>, v: u16) {
        // the current state keeps group 0
        for d in groups[1..].iter().rev() {
            let mut s2 = st.clone();
            s2.doms[v as usize] = *d;
            s2.depth += 1;
            self.work.push(s2);
        }
        self.stats[st.job as usize].forks += groups.len() as u64 - 1;
        st.doms[v as usize] = groups[0];
        if groups.len() > 1 {
            st.depth += 1;
        }
    }
    /// outcome of a classification of e's values; forks when several classes are feasible
    fn classify(&mut self, st: &mut State, e: E, cls: &dyn Fn(u64) -> u32) -> X<u32> {
        let v = match self.pool.sup[e as usize] {
            Sup::One(v) => v,
            _ => unreachable!(),
        };
        let dom = st.doms[v as usize];
        let tab = self.pool.tab[e as usize].as_ref().unwrap().clone();
        let mut g: Vec<(u32, Dom, Vec<u64>)> = vec![];
        for w in 0..4 {
            let mut bits = dom[w];
            while bits != 0 {
                let b = bits.trailing_zeros();
                bits &= bits - 1;
                let i = w * 64 + b as usize;
                let val = tab[i];
                let k = cls(val);
                match g.iter_mut().find(|x| x.0 == k) {
                    Some(x) => {
                        x.1[w] |= 1 << b;
                        if !x.2.contains(&val) {
                            x.2.push(val)
                        }
                    }
                    None => {
                        let mut d = [0u64; 4];
                        d[w] |= 1 << b;
                        g.push((k, d, vec![val]));
                    }
                }
            }
        }
        let groups: Vec<(Dom, Pred)> = g.iter().map(|x| (x.1, Pred::In(x.2.clone()))).collect();
        if let Err(m) = self.pool.decide(e, v, &dom, &groups) {
            return err(m);
        }
        if g.len() == 1 {
            return Ok(g[0].0);
        }
        let mut keep = vec![];
        for x in &g {
            if st.extra.is_empty() || self.feas_dom(st, v, &x.1)? {
                keep.push((x.0, x.1));
            }
        }
        if keep.is_empty() {
            return err("no feasible class".into());
        }
        let r = keep[0].0;
        let doms = keep.into_iter().map(|x| x.1).collect();
        self.fork(st, doms, v);
        Ok(r)
    }
    /// truth of a boolean term on this state; forks (pushing the other side) if both are feasible
    fn branch(&mut self, st: &mut State, e: E) -> X<bool> {
        if let Sup::One(_) = self.pool.sup[e as usize] {
            return Ok(self.classify(st, e, &|x| x as u32)? == 1);
        }
        // reduce the boolean structure; split on single-variable leaves first
        let mut e = e;
        loop {
            let f = self.norm(st, V { e, c: 0 });
            if f.e == 0 {
                return Ok(f.c & 1 == 1);
            }
            e = f.e;
            if let Sup::One(_) = self.pool.sup[e as usize] {
                return Ok(self.classify(st, e, &|x| x as u32)? == 1);
            }
            match self.reduce(st, e)? {
                Red::Val(b) => return Ok(b),
                Red::Leaf(l) => {
                    self.classify(st, l, &|x| x as u32)?;
                }
                Red::Hard(h) => {
                    if self.pool.heavy[h as usize] {
                        if let Sup::Many(l) = &self.pool.sup[h as usize] {
                            let mut best: Option<(u32, u16)> = None;
                            for v in l.iter() {
                                if self.pool.vars[*v as usize].size > 0 && single(st, *v, &self.pool).is_none() {
                                    let n: u32 = st.doms[*v as usize].iter().map(|x| x.count_ones()).sum();
                                    if best.map_or(true, |b| n < b.0) {
                                        best = Some((n, *v));
                                    }
                                }
                            }
                            if let Some((_, v)) = best {
                                let x = self.pool.var_e(v);
                                self.classify(st, x, &|x| x as u32)?;
                                continue;
                            }
                        }
                    }
                    let vars: Vec<u16> = match &self.pool.sup[h as usize] {
                        Sup::Many(l) => l.to_vec(),
                        Sup::One(v) => vec![*v],
                        Sup::None => vec![],
                    };
                    let mut vars = vars;
                    let mut cons = self.related(st, &mut vars);
                    if let Some(x) = cons.iter().find(|x| x.0 == h) {
                        // already on the path
                        let b = x.1;
                        let _ = b;
                    }
                    let dl = self.domlist(st, &vars);
                    cons.push((h, true));
                    let t = self.pool.solve(&cons, &dl);
                    cons.pop();
                    cons.push((h, false));
                    let f = self.pool.solve(&cons, &dl);
                    let (t, f) = match (t, f) {
                        (Ok(a), Ok(b)) => (a.is_some(), b.is_some()),
                        (Err(e), _) | (_, Err(e)) => return err(e),
                    };
                    match (t, f) {
                        (true, true) => {
                            let mut s2 = st.clone();
                            s2.extra.push((h, false));
                            s2.depth += 1;
                            self.work.push(s2);
                            self.stats[st.job as usize].forks += 1;
                            st.extra.push((h, true));
                            st.depth += 1;
                        }
                        (true, false) => st.extra.push((h, true)),
                        (false, true) => st.extra.push((h, false)),
                        (false, false) => return err("path infeasible".into()),
                    }
                    if h == e {
                        return Ok(t);
                    }
                }
            }
        }
    }
    fn reduce(&mut self, st: &mut State, e: E) -> X<Red> {
        match self.pool.sup[e as usize] {
            Sup::None => {
                if let N::Const(x) = self.pool.n[e as usize] {
                    return Ok(Red::Val(x != 0));
                }
            }
            Sup::One(v) => {
                let dom = st.doms[v as usize];
                let t = self.pool.truth(e);
                let (mut at, mut af) = (false, false);
                for k in 0..4 {
                    at |= dom[k] & t[k] != 0;
                    af |= dom[k] & !t[k] != 0;
                }
                if at != af {
                    self.classify(st, e, &|x| x as u32)?; // solver verdict for the implied value
                    return Ok(Red::Val(at));
                }
                return Ok(Red::Leaf(e));
            }
            _ => {}
        }
        for (h, b) in st.extra.iter() {
            if *h == e {
                return Ok(Red::Val(*b));
            }
        }
        match self.pool.n[e as usize] {
            N::Bin(op @ (B::And | B::Or), 1, a, b) => {
                let stop = op == B::Or;
                let ra = self.reduce(st, a)?;
                match ra {
                    Red::Val(x) if x == stop => return Ok(Red::Val(stop)),
                    Red::Val(_) => return self.reduce(st, b),
                    _ => {}
                }
                let rb = self.reduce(st, b)?;
                match rb {
                    Red::Val(x) if x == stop => return Ok(Red::Val(stop)),
                    Red::Val(_) => return Ok(ra),
                    Red::Leaf(l) => {
                        if let Red::Hard(_) = ra {
                            return Ok(Red::Leaf(l));
                        }
                    }
                    _ => {}
                }
                Ok(ra)
            }
            N::Bin(B::Xor, 1, a, b) => {
                if let N::Const(1) = self.pool.n[b as usize] {
                    return Ok(match self.reduce(st, a)? {
                        Red::Val(x) => Red::Val(!x),
                        r => r,
                    });
                }
                Ok(Red::Hard(e))
            }
            N::Ite(q, a, b) => match self.reduce(st, q)? {
                Red::Val(true) => self.reduce(st, a),
                Red::Val(false) => self.reduce(st, b),
                r => Ok(r),
            },
            _ => Ok(Red::Hard(e)),
        }
    }
    /// concrete value of a term on this state; forks over all its feasible values
    fn concretize(&mut self, st: &mut State, v: V) -> X<u64> {
        let v = self.norm(st, v);
        if v.is_c() {
            return Ok(v.c);
        }
        let w = self.pool.w[v.e as usize] as u32;
        if let Sup::One(_) = self.pool.sup[v.e as usize] {
            if w <= 32 {
                return Ok(self.classify(st, v.e, &|x| x as u32)? as u64);
            }
            let tab = self.pool.tab[v.e as usize].as_ref().unwrap().clone();
            let mut vals: Vec<u64> = tab.to_vec();
            vals.sort();
            vals.dedup();
            let k = self.classify(st, v.e, &|x| vals.binary_search(&x).unwrap() as u32)?;
            return Ok(vals[k as usize]);
        }
        // enumerate with the solver
        let mut vars: Vec<u16> = match &self.pool.sup[v.e as usize] {
            Sup::Many(l) => l.to_vec(),
            _ => vec![],
        };
        let cons = self.related(st, &mut vars);
        let dl = self.domlist(st, &vars);
        let m = match self.pool.solve(&cons, &dl) {
            Ok(Some(m)) => m,
            Ok(None) => return err("path infeasible".into()),
            Err(e) => return err(e),
        };
        let mut memo = Default::default();
        let k = self.pool.eval(v.e, &|x| m.iter().find(|y| y.0 == x).map(|y| y.1).unwrap_or(0), &mut memo);
        let q = self.pool.bin(B::Eq, w, v, c(k));
        if q.is_c() {
            return if q.c == 1 { Ok(k) } else { err("concretize".into()) };
        }
        if self.branch(st, q.e)? {
            Ok(k)
        } else {
            // the equality was not possible after all: try again on the refined state
            self.concretize(st, v)
        }
    }
    pub fn model(&mut self, st: &State) -> Result<Vec<u64>, String> {
        let mut vals: FxMap<u16, u64> = Default::default();
        if !st.extra.is_empty() {
            let mut vars: Vec<u16> = vec![];
            for (e, _) in &st.extra {
                if let Sup::Many(l) = &self.pool.sup[*e as usize] {
                    vars.extend(l.iter());
                }
            }
            vars.sort();
            vars.dedup();
            let dl = self.domlist(st, &vars);
            match self.pool.solve(&st.extra, &dl)? {
                Some(m) => {
                    for (v, x) in m {
                        vals.insert(v, x);
                    }
                }
                None => return Err("infeasible path at model".into()),
            }
        }
        let mut out = vec![];
        for v in &st.vars {
            if let Some(x) = vals.get(v) {
                out.push(*x);
            } else if self.pool.vars[*v as usize].size > 0 {
                let d = st.doms[*v as usize];
                let mut cand: Vec<u64> = vec![];
                for i in 0..256u64 {
                    if d[(i / 64) as usize] >> (i % 64) & 1 == 1 {
                        cand.push(i);
                    }
                }
                // prefer readable inputs for raw bytes
                let k = if self.pool.vars[*v as usize].size > 100 {
                    *cand.iter().find(|x| (b'a' as u64..=b'z' as u64).contains(x)).or_else(|| cand.iter().find(|x| (0x21..0x7f).contains(*x))).unwrap_or(&cand[0])
                } else {
                    cand[0]
                };
                out.push(k);
            } else {
                out.push(0);
            }
        }
        Ok(out)
    }
    fn cstr(&self, st: &State, p: u64, n: u64) -> String {
        let o = (p & 0xffff_ffff) as usize;
        let n = n as usize;
        let b: &[u8] = match p >> 32 {
            1 => &self.m.cdata,
            2 => &st.gm.b,
            3 => &st.stack.b,
            4 => &st.heap.b,
            _ => return "?".into(),
        };
        if n > 4096 || o + n > b.len() {
            return "?".into();
        }
        String::from_utf8_lossy(&b[o..o + n]).into_owned()
    }
    fn panic_end(&mut self, st: &mut State, fi: u32, args: &[V]) -> End {
        let mut loc = String::new();
        for a in args.iter().rev() {
            if a.is_c() && a.c >> 32 == 1 {
                // Location { ptr, len, line, col }
                if let (Ok(p), Ok(n), Ok(l), Ok(cc)) = (self.read(st, a.c, 8), self.read(st, a.c + 8, 8), self.read(st, a.c + 16, 4), self.read(st, a.c + 20, 4)) {
                    let s = self.cstr(st, p.c, n.c);
                    if s.contains(".rs") {
                        let s = s.trim_end_matches('\0');
                        loc = format!("{}:{}:{}", s, l.c, cc.c);
                        break;
                    }
                }
            }
        }
        let mut msg = self.m.funcs[fi as usize].pretty.clone();
        if args.len() >= 2 && args[0].is_c() && args[1].is_c() && args[1].c > 0 && args[1].c < 200 && args[0].c >> 32 == 1 {
            msg = self.cstr(st, args[0].c, args[1].c);
        }
        End::Panic(loc, msg)
    }

    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    /// run one path to its end; alternatives are pushed on self.work
    pub fn run_path(&mut self, st: &mut State, stop_on_fork: bool) -> bool {
        let s0 = st.steps;
        let r = self.exec(st, stop_on_fork);
        let job = st.job as usize;
        self.stats[job].insts += st.steps - s0;
        let end = match r {
            None => return false,
            Some(e) => e,
        };
        let s = &mut self.stats[job];
        s.paths += 1;
        s.maxsteps = s.maxsteps.max(st.steps);
        s.maxvars = s.maxvars.max(st.vars.len() as u64);
        for k in &st.reach {
            *s.reach.entry(*k).or_insert(0) += 1;
        }
        match end {
            End::Done => {
                s.done += 1;
                s.seen += 1;
                let seen = s.seen;
                let cnt = self.samples.iter().filter(|x| x.job == st.job).count();
                let take = if cnt < self.nsamples {
                    true
                } else {
                    self.nsamples > 0 && self.rnd() % seen < self.nsamples as u64
                };
                if take {
                    if let Ok(inputs) = self.model(st) {
                        let notes = self.eval_notes(st, &inputs);
                        let smp = Sample { job: st.job, inputs, notes, steps: st.steps };
                        if cnt < self.nsamples {
                            self.samples.push(smp);
                        } else {
                            let k = (self.rnd() % self.nsamples as u64) as usize;
                            let mut idx = 0;
                            for i in 0..self.samples.len() {
                                if self.samples[i].job == st.job {
                                    if idx == k {
                                        self.samples[i] = smp;
                                        break;
                                    }
                                    idx += 1;
                                }
                            }
                        }
                    }
                }
            }
            End::Assume => s.assumed += 1,
            End::Panic(l, m) => {
                s.panics += 1;
                self.record(st, "panic", 0, format!("{} [{}]", l, m));
            }
            End::Fail(k) => {
                s.fails += 1;
                self.record(st, "assert", k, String::new());
            }
            End::Steps => {
                s.hangs += 1;
                let w = self.where_(st);
                self.record(st, "hang", 0, w);
            }
            End::Err(e) => {
                s.errs += 1;
                if self.errs.len() < 50 {
                    let m = self.model(st).unwrap_or_default();
                    self.errs.push((st.job, e, m));
                }
            }
        }
        true
    }
    fn eval_notes(&self, st: &State, inputs: &[u64]) -> Vec<u8> {
        let mut env: FxMap<u16, u64> = Default::default();
        for (v, x) in st.vars.iter().zip(inputs) {
            env.insert(*v, *x);
        }
        let mut memo = Default::default();
        st.notes.iter().map(|v| if v.is_c() { v.c as u8 } else { self.pool.eval(v.e, &|x| env[&x], &mut memo) as u8 }).collect()
    }
    fn record(&mut self, st: &State, kind: &'static str, code: u32, what: String) {
        if self.viol.iter().filter(|v| v.job == st.job).count() >= self.max_viol {
            return;
        }
        match self.model(st) {
            Ok(inputs) => self.viol.push(Viol { job: st.job, kind, code, what, inputs, steps: st.steps }),
            Err(e) => self.errs.push((st.job, e, vec![])),
        }
    }

    fn take_edge(&mut self, st: &mut State, base: usize, e: &'static Edge, fi: usize) -> u32 {
        let n = e.moves.len();
        if n == 1 {
            let (o, d) = e.moves[0];
            st.regs[base + d as usize] = match o {
                Op::C(x) => c(x),
                Op::R(r) => st.regs[base + r as usize],
            };
        } else if n > 1 {
            self.tmp.clear();
            for (o, _) in e.moves.iter() {
                self.tmp.push(match o {
                    Op::C(x) => c(*x),
                    Op::R(r) => st.regs[base + *r as usize],
                });
            }
            for (k, (_, d)) in e.moves.iter().enumerate() {
                st.regs[base + *d as usize] = self.tmp[k];
            }
        }
        self.cov[fi][e.bb as usize] = 1;
        e.target
    }

    /// None: stopped because a fork happened (stop_on_fork)
    fn exec(&mut self, st: &mut State, stop_on_fork: bool) -> Option<End> {
        match self.exec_(st, stop_on_fork) {
            Ok(b) => {
                if b {
                    Some(End::Done)
                } else {
                    None
                }
            }
            Err(e) => Some(e),
        }
    }
    fn exec_(&mut self, st: &mut State, stop_on_fork: bool) -> X<bool> {
        let mut fr = st.frames.len() - 1;
        let mut f: &'static Func = st.frames[fr].f;
        let mut fi = st.frames[fr].fi as usize;
        let mut base = st.frames[fr].base as usize;
        let mut pc = st.frames[fr].pc as usize;
        let work0 = self.work.len();
        let mut budget: u64 = 0;
        macro_rules! g {
            ($o:expr) => {
                match $o {
                    Op::C(x) => c(x),
                    Op::R(r) => st.regs[base + r as usize],
                }
            };
        }
        macro_rules! sync {
            () => {{
                st.frames[fr].pc = pc as u32;
                st.steps += budget;
                budget = 0;
            }};
        }
        macro_rules! conc {
            ($v:expr) => {{
                let v = $v;
                if v.is_c() {
                    v.c
                } else {
                    sync!();
                    self.concretize(st, v)?
                }
            }};
        }
        macro_rules! reload {
            () => {{
                fr = st.frames.len() - 1;
                f = st.frames[fr].f;
                fi = st.frames[fr].fi as usize;
                base = st.frames[fr].base as usize;
                pc = st.frames[fr].pc as usize;
            }};
        }
        loop {
            budget += 1;
            if budget >= 20000 {
                sync!();
                if st.steps > self.max_steps {
                    return Err(End::Steps);
                }
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        // put the path back: it stays unexplored
                        return Ok(false);
                    }
                }
            }
            let inst = unsafe { f.insts.get_unchecked(pc) };
            match inst {
                Inst::Bin(op, w, d, a, b) => {
                    let x = g!(*a);
                    let y = g!(*b);
                    let r = if x.e | y.e == 0 {
                        if y.c == 0 && matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                            return err("division by zero in IR".into());
                        }
                        c(apply(*op, *w, x.c, y.c))
                    } else {
                        let x = self.norm(st, x);
                        let y = self.norm(st, y);
                        if !y.is_c() && matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                            let k = conc!(y);
                            self.pool.bin(*op, *w, x, c(k))
                        } else {
                            self.pool.bin(*op, *w, x, y)
                        }
                    };
                    st.regs[base + *d as usize] = r;
                    pc += 1;
                }
                Inst::Cast(k, fb, tb, d, a) => {
                    let x = g!(*a);
                    st.regs[base + *d as usize] = if x.e == 0 {
                        c(apply_cast(*k, *fb, *tb, x.c))
                    } else {
                        let x = self.norm(st, x);
                        self.pool.cast(*k, *fb, *tb, x)
                    };
                    pc += 1;
                }
                Inst::Gep(d, b, off, idx) => {
                    let bv = g!(*b);
                    let mut o = *off as u64;
                    let mut symv: Option<V> = None;
                    for (i, w, sc) in idx.iter() {
                        let v = g!(*i);
                        let v = if v.e != 0 { self.norm(st, v) } else { v };
                        if v.is_c() {
                            let k = if *w < 64 { (((v.c << (64 - w)) as i64) >> (64 - w)) as u64 } else { v.c };
                            o = o.wrapping_add(k.wrapping_mul(*sc));
                        } else {
                            let v = self.pool.cast(crate::ir::Cast::SExt, *w, 64, v);
                            let v = self.pool.bin(B::Mul, 64, v, c(*sc));
                            symv = Some(match symv {
                                None => v,
                                Some(x) => self.pool.bin(B::Add, 64, x, v),
                            });
                        }
                    }
                    let mut r = if bv.e == 0 { c(bv.c.wrapping_add(o)) } else { self.pool.bin(B::Add, 64, bv, c(o)) };
                    if let Some(s) = symv {
                        r = self.pool.bin(B::Add, 64, r, s);
                    }
                    st.regs[base + *d as usize] = r;
                    pc += 1;
                }
                Inst::Load(d, bits, a, off) => {
                    let mut p = g!(*a);
                    let n = ((*bits + 7) / 8) as usize;
                    if p.e != 0 {
                        p = self.norm(st, p);
                    }
                    let mut r;
                    if p.e != 0 {
                        // symbolic address: a function of the index when the memory there is concrete
                        if let Some(t) = self.table_load(st, p.e, *off, n)? {
                            r = t;
                        } else {
                            let k = conc!(p);
                            r = self.read(st, k.wrapping_add(*off), n)?;
                        }
                    } else {
                        r = self.read(st, p.c.wrapping_add(*off), n)?;
                    }
                    if (n * 8) as u32 != *bits {
                        r = if r.e == 0 { c(r.c & mask(*bits)) } else { self.pool.ext(r, 0, *bits) };
                    }
                    st.regs[base + *d as usize] = r;
                    pc += 1;
                }
                Inst::Store(bits, v, a, off) => {
                    let p = conc!(g!(*a));
                    let mut x = g!(*v);
                    let n = ((*bits + 7) / 8) as usize;
                    if x.e != 0 {
                        x = self.norm(st, x);
                        if x.e != 0 && (n * 8) as u32 != *bits {
                            x = self.pool.cast(crate::ir::Cast::ZExt, *bits, (n * 8) as u32, x);
                        }
                    }
                    self.write(st, p.wrapping_add(*off), n, x)?;
                    pc += 1;
                }
                Inst::Br(e) => {
                    pc = self.take_edge(st, base, e, fi) as usize;
                }
                Inst::CondBr(cnd, es) => {
                    let v = g!(*cnd);
                    let t = if v.e == 0 {
                        v.c & 1 != 0
                    } else {
                        sync!();
                        if self.profile {
                            *self.hist.entry((fi as u32, pc as u32)).or_insert(0) += 1;
                        }
                        let r = self.branch(st, v.e)?;
                        if stop_on_fork && self.work.len() > work0 {
                            return Ok(false);
                        }
                        r
                    };
                    let e: &'static Edge = if t { &es.0 } else { &es.1 };
                    pc = self.take_edge(st, base, e, fi) as usize;
                }
                Inst::Switch(w, v, cs) => {
                    let x = g!(*v);
                    let x = if x.e != 0 { self.norm(st, x) } else { x };
                    let e: &'static Edge;
                    if x.e == 0 {
                        let mut t = &cs.1;
                        for (k, ed) in cs.0.iter() {
                            if *k == x.c {
                                t = ed;
                                break;
                            }
                        }
                        e = t;
                    } else if let Sup::One(_) = self.pool.sup[x.e as usize] {
                        sync!();
                        if self.profile {
                            *self.hist.entry((fi as u32, pc as u32)).or_insert(0) += 1;
                        }
                        // group the values by destination (and by phi moves when destinations coincide)
                        let cases = &cs.0;
                        let k = self.classify(st, x.e, &|val| {
                            for (i, (kk, ed)) in cases.iter().enumerate() {
                                if *kk == val {
                                    // first case with the same target and no moves represents the class
                                    for (j, (_, e2)) in cases.iter().enumerate().take(i) {
                                        if e2.target == ed.target && e2.moves.is_empty() && ed.moves.is_empty() {
                                            return j as u32;
                                        }
                                    }
                                    return i as u32;
                                }
                            }
                            u32::MAX
                        })?;
                        if stop_on_fork && self.work.len() > work0 {
                            return Ok(false);
                        }
                        e = if k == u32::MAX { &cs.1 } else { &cs.0[k as usize].1 };
                    } else {
                        sync!();
                        let mut t = &cs.1;
                        for (k, ed) in cs.0.iter() {
                            let q = self.pool.bin(B::Eq, *w, x, c(*k));
                            let b = if q.is_c() { q.c == 1 } else { self.branch(st, q.e)? };
                            if b {
                                t = ed;
                                break;
                            }
                        }
                        if stop_on_fork && self.work.len() > work0 {
                            return Ok(false);
                        }
                        e = t;
                    }
                    pc = self.take_edge(st, base, e, fi) as usize;
                }
                Inst::Select(d, cd, a, b, w) => {
                    let q = g!(*cd);
                    let x = g!(*a);
                    let y = g!(*b);
                    let q = if q.e != 0 { self.norm(st, q) } else { q };
                    let r = if q.e == 0 {
                        if q.c & 1 != 0 {
                            x
                        } else {
                            y
                        }
                    } else if *w == 64 && x.is_c() && y.is_c() && (x.c >> 32 != 0 || y.c >> 32 != 0) && x != y {
                        // pointers: fork instead of building a symbolic address
                        sync!();
                        if self.branch(st, q.e)? {
                            x
                        } else {
                            y
                        }
                    } else {
                        self.pool.ite(q, x, y, *w)
                    };
                    st.regs[base + *d as usize] = r;
                    pc += 1;
                }
                Inst::Move(d, a) => {
                    st.regs[base + *d as usize] = g!(*a);
                    pc += 1;
                }
                Inst::Alloca(d, sz, al, cnt) => {
                    let n = conc!(g!(*cnt));
                    let mut o = st.stack.b.len() as u64;
                    let al = (*al).max(1);
                    o = (o + al - 1) / al * al;
                    let size = (sz * n) as usize;
                    if o as usize + size > 64 << 20 {
                        return err("stack exhausted".into());
                    }
                    st.stack.b.resize(o as usize + size, 0);
                    st.stack.clear(o as usize, size);
                    st.regs[base + *d as usize] = c(STACK_BASE + o);
                    pc += 1;
                }
                Inst::Ret(vals) => {
                    let k = vals.len();
                    let frame = st.frames[fr].clone();
                    if fr == 0 {
                        sync!();
                        return Ok(true);
                    }
                    self.tmp.clear();
                    for v in vals.iter() {
                        let x = g!(*v);
                        self.tmp.push(x);
                    }
                    st.frames.pop();
                    st.regs.truncate(frame.base as usize);
                    st.stack.b.truncate(frame.sp as usize);
                    reload!();
                    for i in 0..(frame.ndst as usize).min(k) {
                        st.regs[base + frame.dst as usize + i] = self.tmp[i];
                    }
                    if let Some(e) = frame.normal {
                        pc = self.take_edge(st, base, e, fi) as usize;
                    } else {
                        pc += 1;
                    }
                }
                Inst::Call(ci) => {
                    let ci: &'static CallI = ci;
                    let callee = match &ci.callee {
                        Callee::Fn(i) => *i,
                        Callee::Ext(n) => {
                            sync!();
                            let mut args: [V; 8] = [c(0); 8];
                            for (k, a) in ci.args.iter().enumerate().take(8) {
                                args[k] = g!(*a);
                            }
                            let r = self.external(st, n, &args[..ci.args.len().min(8)])?;
                            if ci.ndst == 1 {
                                let mut v = r;
                                if ci.ret_bits < 64 && v.is_c() {
                                    v.c &= mask(ci.ret_bits);
                                }
                                st.regs[base + ci.dst as usize] = v;
                            }
                            if stop_on_fork && self.work.len() > work0 {
                                // effects are done: continue after the call when resumed
                                if ci.normal.is_none() {
                                    pc += 1;
                                    sync!();
                                    return Ok(false);
                                }
                            }
                            match &ci.normal {
                                Some(e) => pc = self.take_edge(st, base, e, fi) as usize,
                                None => pc += 1,
                            }
                            continue;
                        }
                        Callee::Ind(o) => {
                            let p = conc!(g!(*o));
                            if p >> 32 != FN_BASE >> 32 {
                                return err(format!("indirect call to {:x} ({})", p, self.where_(st)));
                            }
                            ((p - FN_BASE) / 16) as u32
                        }
                    };
                    let kd = self.kind[callee as usize];
                    if kd != Kind::Normal {
                        sync!();
                        let mut args: Vec<V> = vec![];
                        for a in ci.args.iter() {
                            let x = g!(*a);
                            args.push(x);
                        }
                        let r = match kd {
                            Kind::Panic => return Err(self.panic_end(st, callee, &args)),
                            Kind::Nop => 0,
                            Kind::Alloc | Kind::AllocZ => {
                                let s = self.concretize(st, args[0])?;
                                let a = self.concretize(st, args[1])?;
                                self.alloc(st, s, a, kd == Kind::AllocZ)?
                            }
                            Kind::Dealloc => {
                                let p = self.concretize(st, args[0])?;
                                let s = self.concretize(st, args[1])?;
                                self.dealloc(st, p, s);
                                0
                            }
                            Kind::Realloc => {
                                let p = self.concretize(st, args[0])?;
                                let s = self.concretize(st, args[1])?;
                                let a = self.concretize(st, args[2])?;
                                let n = self.concretize(st, args[3])?;
                                let q = self.alloc(st, n, a, false)?;
                                self.copy(st, q, p, s.min(n) as usize)?;
                                self.dealloc(st, p, s);
                                q
                            }
                            Kind::Normal => unreachable!(),
                        };
                        if ci.ndst == 1 {
                            st.regs[base + ci.dst as usize] = c(r);
                        }
                        match &ci.normal {
                            Some(e) => pc = self.take_edge(st, base, e, fi) as usize,
                            None => pc += 1,
                        }
                        continue;
                    }
                    let nf = self.func(callee)?;
                    if nf.nparams as usize != ci.args.len() {
                        return err(format!("arity of {}", nf.name));
                    }
                    if fr > 20000 {
                        return err("call depth".into());
                    }
                    st.frames[fr].pc = pc as u32;
                    let nb = base + f.nslots as usize;
                    st.regs.resize(nb + nf.nslots as usize, c(0));
                    for (k, a) in ci.args.iter().enumerate() {
                        st.regs[nb + k] = g!(*a);
                    }
                    let sp = st.stack.b.len() as u32;
                    st.frames.push(Frame { f: nf, fi: callee, base: nb as u32, pc: 0, sp, dst: ci.dst, ndst: ci.ndst, normal: ci.normal.as_ref() });
                    self.cov[callee as usize][0] = 1;
                    fr += 1;
                    f = nf;
                    fi = callee as usize;
                    base = nb;
                    pc = 0;
                }
                Inst::Intr(k, w, d, args, ow) => {
                    let w = *w;
                    match k {
                        Intr::Memcpy => {
                            let n = conc!(g!(args[2])) as usize;
                            let dp = conc!(g!(args[0]));
                            let sp = conc!(g!(args[1]));
                            self.copy(st, dp, sp, n)?;
                            pc += 1;
                            continue;
                        }
                        Intr::Memset => {
                            let n = conc!(g!(args[2])) as usize;
                            let dp = conc!(g!(args[0]));
                            let v = g!(args[1]);
                            for i in 0..n {
                                self.write(st, dp + i as u64, 1, v)?;
                            }
                            pc += 1;
                            continue;
                        }
                        Intr::Trap => return err(format!("trap ({})", self.where_(st))),
                        _ => {}
                    }
                    let mut a: [V; 3] = [c(0); 3];
                    let mut symb = false;
                    for (i, x) in args.iter().enumerate().take(3) {
                        let v = g!(*x);
                        a[i] = if v.e != 0 { self.norm(st, v) } else { v };
                        symb |= a[i].e != 0;
                    }
                    let ow = *ow;
                    let (r, r2): (V, Option<V>);
                    if symb {
                        let p = &mut self.pool;
                        (r, r2) = match k {
                            Intr::Umax => {
                                let q = p.bin(B::Ult, ow, a[0], a[1]);
                                (p.ite(q, a[1], a[0], ow), None)
                            }
                            Intr::Umin => {
                                let q = p.bin(B::Ult, ow, a[0], a[1]);
                                (p.ite(q, a[0], a[1], ow), None)
                            }
                            Intr::Smax => {
                                let q = p.bin(B::Slt, ow, a[0], a[1]);
                                (p.ite(q, a[1], a[0], ow), None)
                            }
                            Intr::Smin => {
                                let q = p.bin(B::Slt, ow, a[0], a[1]);
                                (p.ite(q, a[0], a[1], ow), None)
                            }
                            Intr::UsubSat => {
                                let q = p.bin(B::Ult, ow, a[0], a[1]);
                                let s = p.bin(B::Sub, ow, a[0], a[1]);
                                (p.ite(q, c(0), s, ow), None)
                            }
                            Intr::UaddSat => {
                                let s = p.bin(B::Add, ow, a[0], a[1]);
                                let q = p.bin(B::Ult, ow, s, a[0]);
                                (p.ite(q, c(mask(ow)), s, ow), None)
                            }
                            Intr::Ucmp | Intr::Scmp => {
                                let op = if *k == Intr::Ucmp { B::Ult } else { B::Slt };
                                let lt = p.bin(op, ow, a[0], a[1]);
                                let eq = p.bin(B::Eq, ow, a[0], a[1]);
                                let x = p.ite(eq, c(0), c(1), w);
                                (p.ite(lt, c(mask(w)), x, w), None)
                            }
                            Intr::UaddO => {
                                let s = p.bin(B::Add, ow, a[0], a[1]);
                                let o = p.bin(B::Ult, ow, s, a[0]);
                                (s, Some(o))
                            }
                            Intr::UsubO => {
                                let s = p.bin(B::Sub, ow, a[0], a[1]);
                                let o = p.bin(B::Ult, ow, a[0], a[1]);
                                (s, Some(o))
                            }
                            Intr::UmulO if a[1].is_c() || a[0].is_c() => {
                                let (x, k) = if a[1].is_c() { (a[0], a[1].c) } else { (a[1], a[0].c) };
                                let s = p.bin(B::Mul, ow, x, c(k));
                                let o = if k == 0 { c(0) } else { p.bin(B::Ult, ow, c(mask(ow) / k), x) };
                                (s, Some(o))
                            }
                            Intr::SaddO | Intr::SsubO => {
                                let op = if *k == Intr::SaddO { B::Add } else { B::Sub };
                                let s = p.bin(op, ow, a[0], a[1]);
                                // overflow iff sign(a)==sign(b) (add) / != (sub) and sign(s)!=sign(a)
                                let x1 = p.bin(B::Xor, ow, s, a[0]);
                                let other = if *k == Intr::SaddO { s } else { a[0] };
                                let x2 = p.bin(B::Xor, ow, other, a[1]);
                                let x = p.bin(B::And, ow, x1, x2);
                                let o = p.bin(B::Slt, ow, x, c(0));
                                (s, Some(o))
                            }
                            Intr::SmulO if a[1].is_c() && ow == 64 && (a[1].c as i64) > 1 => {
                                let k = a[1].c as i64;
                                let s = p.bin(B::Mul, ow, a[0], a[1]);
                                let hi = p.bin(B::Slt, ow, c((i64::MAX / k) as u64), a[0]);
                                let lo = p.bin(B::Slt, ow, a[0], c((i64::MIN / k) as u64));
                                let o = p.bin(B::Or, 1, hi, lo);
                                (s, Some(o))
                            }
                            Intr::Ident => (a[0], None),
                            Intr::False => (c(0), None),
                            Intr::Fabs => (p.bin(B::And, 64, a[0], c(!(1 << 63))), None),
                            Intr::Abs => {
                                let q = p.bin(B::Slt, ow, a[0], c(0));
                                let n = p.bin(B::Sub, ow, c(0), a[0]);
                                (p.ite(q, n, a[0], ow), None)
                            }
                            Intr::Fshl | Intr::Fshr if a[2].is_c() => {
                                let s = a[2].c % ow as u64;
                                let (l, rr) = if *k == Intr::Fshl { (s, ow as u64 - s) } else { (ow as u64 - s, s) };
                                let x = p.bin(B::Shl, ow, a[0], c(l));
                                let y = p.bin(B::LShr, ow, a[1], c(rr));
                                if s == 0 {
                                    (if *k == Intr::Fshl { a[0] } else { a[1] }, None)
                                } else {
                                    (p.bin(B::Or, ow, x, y), None)
                                }
                            }
                            Intr::Ctlz | Intr::Cttz | Intr::Ctpop => {
                                // sum / chain over bits
                                let mut acc = if *k == Intr::Ctpop { c(0) } else { c(ow as u64) };
                                for i in 0..ow {
                                    let bit = if *k == Intr::Cttz { ow - 1 - i } else { i };
                                    let b = p.ext(a[0], bit, 1);
                                    if *k == Intr::Ctpop {
                                        let z = p.cast(crate::ir::Cast::ZExt, 1, w, b);
                                        acc = p.bin(B::Add, w, acc, z);
                                    } else {
                                        let pos = if *k == Intr::Ctlz { ow - 1 - bit } else { bit };
                                        acc = p.ite(b, c(pos as u64), acc, w);
                                    }
                                }
                                (acc, None)
                            }
                            Intr::Bswap => {
                                let n = ow / 8;
                                let mut acc = p.ext(a[0], 0, 8);
                                for i in 1..n {
                                    let b = p.ext(a[0], i * 8, 8);
                                    acc = p.cat(acc, i * 8, b, 8);
                                }
                                (acc, None)
                            }
                            _ => {
                                sync!();
                                let mut cc = [0u64; 3];
                                for i in 0..3 {
                                    cc[i] = self.concretize(st, a[i])?;
                                }
                                let (x, y) = intr_c(*k, ow, w, cc);
                                (c(x), y.map(c))
                            }
                        };
                    } else {
                        let (x, y) = intr_c(*k, ow, w, [a[0].c, a[1].c, a[2].c]);
                        r = c(x);
                        r2 = y.map(c);
                    }
                    st.regs[base + *d as usize] = r;
                    if let Some(x) = r2 {
                        st.regs[base + *d as usize + 1] = x;
                    }
                    pc += 1;
                }
                Inst::Rmw(o, bits, d, a, v) => {
                    let p = conc!(g!(*a));
                    let n = (*bits / 8) as usize;
                    let old = self.read(st, p, n)?;
                    let x = g!(*v);
                    let nv = match o {
                        0 => self.pool.bin(B::Add, *bits, old, x),
                        1 => self.pool.bin(B::Sub, *bits, old, x),
                        2 => x,
                        3 => self.pool.bin(B::And, *bits, old, x),
                        _ => self.pool.bin(B::Or, *bits, old, x),
                    };
                    self.write(st, p, n, nv)?;
                    st.regs[base + *d as usize] = old;
                    pc += 1;
                }
                Inst::Cmpxchg(bits, d, a, cm, nw) => {
                    let p = conc!(g!(*a));
                    let n = (*bits / 8) as usize;
                    let old = self.read(st, p, n)?;
                    let x = g!(*cm);
                    let q = self.pool.bin(B::Eq, *bits, old, x);
                    let b = if q.is_c() {
                        q.c == 1
                    } else {
                        sync!();
                        self.branch(st, q.e)?
                    };
                    if b {
                        let y = g!(*nw);
                        self.write(st, p, n, y)?;
                    }
                    st.regs[base + *d as usize] = old;
                    st.regs[base + *d as usize + 1] = c(b as u64);
                    pc += 1;
                }
                Inst::Wide(op, w, d, a, b) => {
                    let mut x = [c(0); 4];
                    x[0] = g!(a[0]);
                    x[1] = g!(a[1]);
                    x[2] = g!(b[0]);
                    x[3] = g!(b[1]);
                    // products and sums of zero-extended halves stay symbolic where the high half is zero
                    let mut k = [0u64; 4];
                    for i in 0..4 {
                        k[i] = conc!(x[i]);
                    }
                    let m: u128 = if *w >= 128 { !0 } else { (1u128 << w) - 1 };
                    let p = (k[0] as u128) | (k[1] as u128) << 64;
                    let q = (k[2] as u128) | (k[3] as u128) << 64;
                    let sh = if q >= *w as u128 { 200 } else { q as u32 };
                    let r: u128 = match op {
                        WOp::Add => p.wrapping_add(q),
                        WOp::Sub => p.wrapping_sub(q),
                        WOp::Mul => p.wrapping_mul(q),
                        WOp::Shl => p.checked_shl(sh).unwrap_or(0),
                        WOp::LShr => p.checked_shr(sh).unwrap_or(0),
                        WOp::And => p & q,
                        WOp::Or => p | q,
                        WOp::Xor => p ^ q,
                        WOp::UDiv => {
                            if q == 0 {
                                return err("div".into());
                            }
                            p / q
                        }
                        WOp::URem => {
                            if q == 0 {
                                return err("rem".into());
                            }
                            p % q
                        }
                        WOp::Eq => (p == q) as u128,
                        WOp::Ne => (p != q) as u128,
                        WOp::Ult => (p < q) as u128,
                        WOp::Ule => (p <= q) as u128,
                        WOp::Ugt => (p > q) as u128,
                        WOp::Uge => (p >= q) as u128,
                        WOp::SExt => apply_cast(crate::ir::Cast::SExt, *w, 64, k[0]) as i64 as i128 as u128,
                        WOp::Ctlz => p.leading_zeros() as u128,
                    };
                    let r = if *op == WOp::SExt { r } else { r & m };
                    st.regs[base + *d as usize] = c(r as u64);
                    if !matches!(op, WOp::Eq | WOp::Ne | WOp::Ult | WOp::Ule | WOp::Ugt | WOp::Uge) {
                        st.regs[base + *d as usize + 1] = c((r >> 64) as u64);
                    }
                    pc += 1;
                }
                Inst::Unreachable => {
                    sync!();
                    return err(format!("unreachable executed ({})", self.where_(st)));
                }
                Inst::Unsupported(s) => {
                    sync!();
                    return err(format!("unsupported: {} ({})", s.chars().take(120).collect::<String>(), self.where_(st)));
                }
            }
        }
    }

    fn table_load(&mut self, st: &mut State, e: E, off: u64, n: usize) -> X<Option<V>> {
        let v = match self.pool.sup[e as usize] {
            Sup::One(v) => v,
            _ => return Ok(None),
        };
        let dom = st.doms[v as usize];
        let tab = self.pool.tab[e as usize].as_ref().unwrap().clone();
        let mut out = vec![0u64; tab.len()];
        let mut last = 0;
        let mut first = None;
        for i in 0..tab.len() {
            if dom[i / 64] >> (i % 64) & 1 == 0 {
                continue;
            }
            let a = tab[i].wrapping_add(off);
            let r = self.read(st, a, n)?;
            if !r.is_c() {
                return Ok(None);
            }
            out[i] = r.c;
            if first.is_none() {
                first = Some(i);
            }
            last = i;
        }
        let _ = last;
        // values outside the path's domain are irrelevant: fill with the first feasible one
        if let Some(f) = first {
            let fv = out[f];
            for i in 0..tab.len() {
                if dom[i / 64] >> (i % 64) & 1 == 0 {
                    out[i] = fv;
                }
            }
        }
        Ok(Some(self.pool.mk_table(v, n as u32 * 8, out)))
    }

    fn external(&mut self, st: &mut State, name: &str, a: &[V]) -> X<V> {
        match name {
            "sym_u8" => {
                let n = self.concretize(st, a[0])? as u32;
                if n == 0 || n > 256 {
                    return err("sym_u8 size".into());
                }
                let ord = st.vars.len() as u16;
                if n == 1 {
                    // still an input of the path
                    let v = self.pool.varix.get(&(ord, 1, 8)).copied();
                    let id = match v {
                        Some(i) => i,
                        None => {
                            let i = self.pool.vars.len() as u16;
                            self.pool.vars.push(VarInfo { order: ord, size: 1, bits: 8 });
                            self.pool.varix.insert((ord, 1, 8), i);
                            i
                        }
                    };
                    self.add_var(st, id);
                    return Ok(c(0));
                }
                let v = self.pool.var(ord, n, 8);
                let id = self.pool.varid(v.e);
                self.add_var(st, id);
                Ok(v)
            }
            "sym_wide" => {
                let bits = self.concretize(st, a[0])? as u8;
                let ord = st.vars.len() as u16;
                let v = self.pool.var(ord, 0, bits);
                let id = self.pool.varid(v.e);
                self.add_var(st, id);
                Ok(self.pool.cast(Cast::ZExt, bits as u32, 32, v))
            }
            "sym_assume" => {
                let v = self.norm(st, a[0]);
                if v.is_c() {
                    return if v.c & 1 == 1 { Ok(c(0)) } else { Err(End::Assume) };
                }
                if self.branch(st, v.e)? {
                    Ok(c(0))
                } else {
                    Err(End::Assume)
                }
            }
            "sym_check" => {
                self.stats[st.job as usize].asserts += 1;
                let v = self.norm(st, a[0]);
                let code = self.concretize(st, a[1])? as u32;
                let ok = if v.is_c() { v.c & 1 == 1 } else { self.branch(st, v.e)? };
                if ok {
                    Ok(c(0))
                } else {
                    Err(End::Fail(code))
                }
            }
            "sym_reach" => {
                let code = self.concretize(st, a[0])? as u32;
                if !st.reach.contains(&code) {
                    st.reach.push(code);
                }
                Ok(c(0))
            }
            "sym_conc" => {
                let v = self.concretize(st, a[0])?;
                Ok(c(v))
            }
            "sym_note" => {
                let p = self.concretize(st, a[0])?;
                let n = self.concretize(st, a[1])?;
                for i in 0..n {
                    let b = self.read(st, p + i, 1)?;
                    st.notes.push(b);
                }
                Ok(c(0))
            }
            "bcmp" | "memcmp" => {
                let p = self.concretize(st, a[0])?;
                let q = self.concretize(st, a[1])?;
                let n = self.concretize(st, a[2])?;
                if n == 0 {
                    return Ok(c(0));
                }
                let mut all = c(1);
                let mut pairs = vec![];
                for i in 0..n {
                    let x = self.read(st, p + i, 1)?;
                    let y = self.read(st, q + i, 1)?;
                    if x.is_c() && y.is_c() {
                        if x.c != y.c {
                            if name == "bcmp" {
                                return Ok(c(1));
                            }
                            if pairs.is_empty() {
                                return Ok(c(if x.c < y.c { 0xffff_ffff } else { 1 }));
                            }
                            pairs.push((x, y));
                            break;
                        }
                        continue;
                    }
                    pairs.push((x, y));
                }
                if name == "bcmp" {
                    for (x, y) in pairs {
                        let e = self.pool.bin(B::Eq, 8, x, y);
                        all = self.pool.bin(B::And, 1, all, e);
                    }
                    return Ok(self.pool.ite(all, c(0), c(1), 32));
                }
                let mut r = c(0);
                for (x, y) in pairs.into_iter().rev() {
                    let lt = self.pool.bin(B::Ult, 8, x, y);
                    let eq = self.pool.bin(B::Eq, 8, x, y);
                    let s = self.pool.ite(lt, c(0xffff_ffff), c(1), 32);
                    r = self.pool.ite(eq, r, s, 32);
                }
                Ok(r)
            }
            "strlen" => {
                let p = self.concretize(st, a[0])?;
                let mut n = 0;
                loop {
                    let b = self.read(st, p + n, 1)?;
                    let b = self.concretize(st, b)?;
                    if b == 0 {
                        return Ok(c(n));
                    }
                    n += 1;
                }
            }
            "malloc" => {
                let n = self.concretize(st, a[0])?;
                let p = self.alloc(st, n, 16, false)?;
                Ok(c(p))
            }
            "free" => Ok(c(0)),
            "abort" => Err(End::Panic("abort".into(), "abort".into())),
            // the system calls std itself makes in this single-threaded run
            "syscall" => {
                let nr = self.concretize(st, a[0])?;
                match nr {
                    // getrandom: any bytes are allowed; the keys of std's hash maps come from here
                    318 => {
                        let p = self.concretize(st, a[1])?;
                        let n = self.concretize(st, a[2])?;
                        for i in 0..n {
                            self.write(st, p + i, 1, c((i * 37 + 11) & 255))?;
                        }
                        Ok(c(n))
                    }
                    // futex wake
                    202 if self.concretize(st, a[2])? & 127 == 1 => Ok(c(0)),
                    // gettid
                    186 => Ok(c(1)),
                    _ => err(format!("system call {} ({})", nr, self.where_(st))),
                }
            }
            "__cxa_thread_atexit_impl" | "pthread_setspecific" | "sched_yield" => Ok(c(0)),
            "pthread_key_create" => {
                let p = self.concretize(st, a[0])?;
                self.write(st, p, 4, c(1))?;
                Ok(c(0))
            }
            "pthread_getspecific" => Ok(c(0)),
            _ => err(format!("external {} ({})", name, self.where_(st))),
        }
    }
    fn add_var(&mut self, st: &mut State, id: u16) {
        while st.doms.len() <= id as usize {
            let k = st.doms.len() as u16;
            let d = if self.pool.vars[k as usize].size > 0 { self.pool.full_dom(k) } else { [0; 4] };
            st.doms.push(d);
        }
        st.vars.push(id);
    }
}

enum Red {
    Val(bool),
    Leaf(E),
    Hard(E),
}

/// the value of a small variable whose domain has become a singleton
fn single(st: &State, v: u16, pool: &Pool) -> Option<u64> {
    if pool.vars[v as usize].size == 0 || st.doms.len() <= v as usize {
        return None;
    }
    let d = &st.doms[v as usize];
    let n = d[0].count_ones() + d[1].count_ones() + d[2].count_ones() + d[3].count_ones();
    if n != 1 {
        return None;
    }
    let k = (0..4).find(|k| d[*k] != 0).unwrap();
    Some(k as u64 * 64 + d[k].trailing_zeros() as u64)
}

fn norm_(pool: &Pool, st: &State, v: V) -> V {
    if v.e == 0 {
        return v;
    }
    if let Sup::One(x) = pool.sup[v.e as usize] {
        let d = &st.doms[x as usize];
        let n = d[0].count_ones() + d[1].count_ones() + d[2].count_ones() + d[3].count_ones();
        if n == 1 {
            let i = if d[0] != 0 {
                d[0].trailing_zeros()
            } else if d[1] != 0 {
                64 + d[1].trailing_zeros()
            } else if d[2] != 0 {
                128 + d[2].trailing_zeros()
            } else {
                192 + d[3].trailing_zeros()
            };
            return c(pool.tab[v.e as usize].as_ref().unwrap()[i as usize]);
        }
    }
    v
}

fn intr_c(k: Intr, ow: u32, w: u32, a: [u64; 3]) -> (u64, Option<u64>) {
    let m = mask(ow);
    let s = |x: u64| if ow >= 64 { x as i64 } else { ((x << (64 - ow)) as i64) >> (64 - ow) };
    match k {
        Intr::Umax => (a[0].max(a[1]), None),
        Intr::Umin => (a[0].min(a[1]), None),
        Intr::Smax => (s(a[0]).max(s(a[1])) as u64 & m, None),
        Intr::Smin => (s(a[0]).min(s(a[1])) as u64 & m, None),
        Intr::UsubSat => (a[0].saturating_sub(a[1]), None),
        Intr::UaddSat => {
            let x = a[0] as u128 + a[1] as u128;
            (if x > m as u128 { m } else { x as u64 }, None)
        }
        Intr::Fshl => {
            let n = a[2] % ow as u64;
            (if n == 0 { a[0] } else { ((a[0] << n) | (a[1] >> (ow as u64 - n))) & m }, None)
        }
        Intr::Fshr => {
            let n = a[2] % ow as u64;
            (if n == 0 { a[1] } else { ((a[0] << (ow as u64 - n)) | (a[1] >> n)) & m }, None)
        }
        Intr::Ctlz => ((a[0].leading_zeros() as u64).saturating_sub(64 - ow as u64), None),
        Intr::Cttz => ((a[0].trailing_zeros() as u64).min(ow as u64), None),
        Intr::Ctpop => (a[0].count_ones() as u64, None),
        Intr::Bswap => (a[0].swap_bytes() >> (64 - ow), None),
        Intr::Bitrev => (a[0].reverse_bits() >> (64 - ow), None),
        Intr::Ucmp => ((if a[0] < a[1] { mask(w) } else { (a[0] > a[1]) as u64 }), None),
        Intr::Scmp => ((if s(a[0]) < s(a[1]) { mask(w) } else { (s(a[0]) > s(a[1])) as u64 }), None),
        Intr::UaddO => {
            let x = a[0] as u128 + a[1] as u128;
            (x as u64 & m, Some((x > m as u128) as u64))
        }
        Intr::UsubO => (a[0].wrapping_sub(a[1]) & m, Some((a[0] < a[1]) as u64)),
        Intr::UmulO => {
            let x = a[0] as u128 * a[1] as u128;
            (x as u64 & m, Some((x > m as u128) as u64))
        }
        Intr::SaddO | Intr::SsubO | Intr::SmulO => {
            let (x, y) = (s(a[0]) as i128, s(a[1]) as i128);
            let r = match k {
                Intr::SaddO => x + y,
                Intr::SsubO => x - y,
                _ => x * y,
            };
            let lo = -(1i128 << (ow - 1));
            let hi = (1i128 << (ow - 1)) - 1;
            (r as u64 & m, Some((r < lo || r > hi) as u64))
        }
        Intr::Abs => (s(a[0]).wrapping_abs() as u64 & m, None),
        Intr::False => (0, None),
        Intr::Ident => (a[0], None),
        Intr::Fabs => (a[0] & !(1 << 63), None),
        _ => (0, None),
    }
}
