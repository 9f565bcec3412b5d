//! Hash-consed bit-vector terms over symbolic inputs, and the Z3 back end that decides them.
use crate::ir::{Cast, B};
use crate::z3::*;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;
pub type Dom = [u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct V {
    pub e: E,
    pub c: u64,
}
pub fn c(x: u64) -> V {
    V { e: 0, c: x }
}
impl V {
    pub fn is_c(&self) -> bool {
        self.e == 0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Nil,
    Var(u16),
    Const(u64),
    Bin(B, u8, E, E), // operand width
    Cast(Cast, E),
    Ext(E, u8),
    Cat(E, E),
    Ite(E, E, E),
    Tab(u16, u32), // table over a variable; index into tabs
}

#[derive(Clone)]
pub enum Sup {
    None,
    One(u16),
    Many(Rc<[u16]>),
}

#[derive(Clone, Copy)]
pub struct VarInfo {
    pub order: u16, // k-th symbolic input on its path
    pub size: u32,  // number of values; 0 = wide variable
    pub bits: u8,
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

/// concrete semantics; w is the operand width
#[inline]
pub fn apply(op: B, w: u32, a: u64, b: u64) -> u64 {
    let m = mask(w);
    match op {
        B::Add => a.wrapping_add(b) & m,
        B::Sub => a.wrapping_sub(b) & m,
        B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => {
            if b == 0 {
                0
            } else {
                a / b
            }
        }
        B::SDiv => {
            if b == 0 {
                0
            } else {
                (sx(a, w).wrapping_div(sx(b, w))) as u64 & m
            }
        }
        B::URem => {
            if b == 0 {
                0
            } else {
                a % b
            }
        }
        B::SRem => {
            if b == 0 {
                0
            } else {
                (sx(a, w).wrapping_rem(sx(b, w))) as u64 & m
            }
        }
        B::Shl => {
            if b >= w as u64 {
                0
            } else {
                (a << b) & m
            }
        }
        B::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => (sx(a, w) >> b.min(63).min(w as u64 - 1)) as u64 & m,
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Eq => (a == b) as u64,
        B::Ne => (a != b) as u64,
        B::Ult => (a < b) as u64,
        B::Ule => (a <= b) as u64,
        B::Slt => (sx(a, w) < sx(b, w)) as u64,
        B::Sle => (sx(a, w) <= sx(b, w)) as u64,
        B::FAdd => (f64::from_bits(a) + f64::from_bits(b)).to_bits(),
        B::FSub => (f64::from_bits(a) - f64::from_bits(b)).to_bits(),
        B::FMul => (f64::from_bits(a) * f64::from_bits(b)).to_bits(),
        B::FDiv => (f64::from_bits(a) / f64::from_bits(b)).to_bits(),
        B::FOeq => (f64::from_bits(a) == f64::from_bits(b)) as u64,
        B::FOlt => (f64::from_bits(a) < f64::from_bits(b)) as u64,
        B::FOle => (f64::from_bits(a) <= f64::from_bits(b)) as u64,
        B::FUno => (f64::from_bits(a).is_nan() || f64::from_bits(b).is_nan()) as u64,
    }
}
pub fn is_cmp(op: B) -> bool {
    matches!(op, B::Eq | B::Ne | B::Ult | B::Ule | B::Slt | B::Sle | B::FOeq | B::FOlt | B::FOle | B::FUno)
}
pub fn apply_cast(k: Cast, from: u32, to: u32, a: u64) -> u64 {
    match k {
        Cast::Trunc => a & mask(to),
        Cast::ZExt => a,
        Cast::SExt => (sx(a, from) as u64) & mask(to),
        Cast::UIToFP => (a as f64).to_bits(),
        Cast::SIToFP => (sx(a, from) as f64).to_bits(),
        Cast::FPToUI => (f64::from_bits(a) as u64) & mask(to),
        Cast::FPToSI => (f64::from_bits(a) as i64 as u64) & mask(to),
        Cast::FNeg => a ^ (1 << 63),
    }
}

pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub part: u64,
    pub cache_hits: u64,
    pub ns: u64,
}

pub struct Pool {
    pub n: Vec<N>,
    pub w: Vec<u8>,
    pub sup: Vec<Sup>,
    pub tab: Vec<Option<Rc<[u64]>>>,
    truth: Vec<Option<Box<Dom>>>,
    cons: FxMap<(N, u8), E>,
    tcons: FxMap<u64, Vec<E>>,
    pub vars: Vec<VarInfo>,
    pub varix: FxMap<(u16, u32, u8), u16>,
    pub tabs: Vec<Rc<[u64]>>,
    z: P,
    s: P,
    depth: Vec<u8>,
    flat: Vec<bool>,
    /// single-variable terms over a folded table of many steps
    big: Vec<bool>,
    /// multi-variable terms better split over a variable than handed to the solver
    pub heavy: Vec<bool>,
    smemo: FxMap<(E, u64), V>,
    envs: FxMap<Vec<(u16, u64)>, u64>,
    zast: Vec<P>,
    zvar: Vec<P>,
    pub st: Stats,
    pcache: FxMap<(E, u16, Dom, Vec<Dom>), ()>,
    qcache: FxMap<Vec<u64>, Option<Vec<(u16, u64)>>>,
    pub verify: bool,
    pub deadline: Option<std::time::Instant>,
}

extern "C" fn zerr(_c: P, e: i32) {
    panic!("z3 error {}", e);
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            n: vec![N::Nil],
            w: vec![0],
            sup: vec![Sup::None],
            tab: vec![None],
            truth: vec![None],
            depth: vec![0],
            flat: vec![false],
            big: vec![false],
            heavy: vec![false],
            smemo: Default::default(),
            envs: Default::default(),
            cons: Default::default(),
            tcons: Default::default(),
            vars: vec![],
            varix: Default::default(),
            tabs: vec![],
            z: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            zast: vec![],
            zvar: vec![],
            st: Stats { queries: 0, sat: 0, unsat: 0, unknown: 0, part: 0, cache_hits: 0, ns: 0 },
            pcache: Default::default(),
            qcache: Default::default(),
            verify: true,
            deadline: None,
        };
        p.open_solver();
        p
    }
    /// fresh solver context (used again in each worker process after fork)
    pub fn open_solver(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.z = Z3_mk_context(cfg);
            Z3_set_error_handler(self.z, zerr);
            self.s = Z3_mk_simple_solver(self.z);
            Z3_solver_inc_ref(self.z, self.s);
            let pr = Z3_mk_params(self.z);
            Z3_params_inc_ref(self.z, pr);
            let k = Z3_mk_string_symbol(self.z, b"timeout\0".as_ptr() as *const _);
            Z3_params_set_uint(self.z, pr, k, 20000);
            Z3_solver_set_params(self.z, self.s, pr);
        }
        self.zast.clear();
        self.zvar.clear();
    }

    pub fn var(&mut self, order: u16, size: u32, bits: u8) -> V {
        let id = match self.varix.get(&(order, size, bits)) {
            Some(i) => *i,
            None => {
                let i = self.vars.len() as u16;
                self.vars.push(VarInfo { order, size, bits });
                self.varix.insert((order, size, bits), i);
                i
            }
        };
        if size > 0 {
            let t: Vec<u64> = (0..size as u64).collect();
            return self.intern_tab(N::Var(id), id, bits, t);
        }
        self.intern(N::Var(id), bits, Sup::Many(Rc::from(vec![id])))
    }
    pub fn var_e(&mut self, id: u16) -> E {
        let VarInfo { order, size, bits } = self.vars[id as usize];
        self.var(order, size, bits).e
    }
    pub fn varid(&self, e: E) -> u16 {
        match self.n[e as usize] {
            N::Var(i) => i,
            _ => panic!("not a variable"),
        }
    }
    pub fn full_dom(&self, v: u16) -> Dom {
        let n = self.vars[v as usize].size;
        let mut d = [0u64; 4];
        for i in 0..n {
            d[(i / 64) as usize] |= 1 << (i % 64);
        }
        d
    }

    fn push(&mut self, n: N, w: u8, sup: Sup, tab: Option<Rc<[u64]>>) -> E {
        let id = self.n.len() as E;
        // height of the structure shown to the solver; a single-variable term that has grown tall
        // (or is floating point) is shown as the table it was folded to
        let d = |e: E| self.depth[e as usize];
        let mut fp = false;
        let h = match n {
            N::Nil | N::Var(_) | N::Const(_) | N::Tab(..) => 0,
            N::Bin(op, _, a, b) => {
                fp = matches!(op, B::FAdd | B::FSub | B::FMul | B::FDiv | B::FOeq | B::FOlt | B::FOle | B::FUno | B::Mul | B::UDiv | B::URem | B::SDiv | B::SRem);
                d(a).max(d(b)) + 1
            }
            N::Cast(k, a) => {
                fp = matches!(k, Cast::UIToFP | Cast::SIToFP | Cast::FPToUI | Cast::FPToSI);
                d(a) + 1
            }
            N::Ext(a, _) => d(a) + 1,
            N::Cat(a, b) => d(a).max(d(b)) + 1,
            N::Ite(q, a, b) => d(q).max(d(a)).max(d(b)) + 1,
        };
        let flat = tab.is_some() && (fp || h > 8);
        self.depth.push(if flat { 0 } else { h.min(250) });
        self.flat.push(flat);
        let kids: [E; 3] = match n {
            N::Bin(_, _, a, b) | N::Cat(a, b) => [a, b, 0],
            N::Cast(_, a) | N::Ext(a, _) => [a, 0, 0],
            N::Ite(q, a, b) => [q, a, b],
            _ => [0; 3],
        };
        let steps = |t: &Rc<[u64]>| t.windows(2).filter(|x| x[0] != x[1]).count();
        let big = tab.is_some() && (flat && steps(tab.as_ref().unwrap()) > 32 || kids.iter().any(|k| self.big[*k as usize]));
        self.big.push(big);
        let many = matches!(sup, Sup::Many(_));
        let hv = many && (fp || h > 24 || kids.iter().any(|k| self.heavy[*k as usize]));
        self.heavy.push(hv);
        self.n.push(n);
        self.w.push(w);
        self.sup.push(sup);
        self.tab.push(tab);
        self.truth.push(None);
        id
    }
    fn intern(&mut self, n: N, w: u8, sup: Sup) -> V {
        if let Some(e) = self.cons.get(&(n, w)) {
            return V { e: *e, c: 0 };
        }
        let e = self.push(n, w, sup, None);
        self.cons.insert((n, w), e);
        V { e, c: 0 }
    }
    fn intern_tab(&mut self, n: N, var: u16, w: u8, t: Vec<u64>) -> V {
        // constant functions are constants
        if t.iter().all(|x| *x == t[0]) {
            return c(t[0]);
        }
        let mut h = Fx::default();
        h.write_u16(var);
        h.write_u8(w);
        for x in &t {
            h.write_u64(*x);
        }
        let h = h.finish();
        if let Some(l) = self.tcons.get(&h) {
            for e in l {
                if self.w[*e as usize] == w {
                    if let Sup::One(v) = self.sup[*e as usize] {
                        if v == var && **self.tab[*e as usize].as_ref().unwrap() == t[..] {
                            return V { e: *e, c: 0 };
                        }
                    }
                }
            }
        }
        let e = self.push(n, w, Sup::One(var), Some(Rc::from(t)));
        self.tcons.entry(h).or_default().push(e);
        V { e, c: 0 }
    }
    pub fn konst(&mut self, x: u64, w: u8) -> E {
        let n = N::Const(x);
        if let Some(e) = self.cons.get(&(n, w)) {
            return *e;
        }
        let e = self.push(n, w, Sup::None, None);
        self.cons.insert((n, w), e);
        e
    }
    fn e_of(&mut self, v: V, w: u32) -> E {
        if v.is_c() {
            self.konst(v.c, w as u8)
        } else {
            v.e
        }
    }
    fn sup_of(&self, es: &[E]) -> Sup {
        let mut acc: Vec<u16> = vec![];
        let mut one: Option<u16> = None;
        let mut many = false;
        for e in es {
            match &self.sup[*e as usize] {
                Sup::None => {}
                Sup::One(v) => match one {
                    None if !many => one = Some(*v),
                    Some(x) if !many && x == *v => {}
                    _ => {
                        if !many {
                            acc.push(one.unwrap());
                            many = true;
                        }
                        acc.push(*v)
                    }
                },
                Sup::Many(l) => {
                    if !many {
                        if let Some(x) = one {
                            acc.push(x)
                        }
                        many = true;
                    }
                    acc.extend(l.iter())
                }
            }
        }
        if many {
            acc.sort();
            acc.dedup();
            Sup::Many(Rc::from(acc))
        } else {
            match one {
                Some(v) => Sup::One(v),
                None => Sup::None,
            }
        }
    }
    fn tabval(&self, e: E, i: usize) -> u64 {
        match &self.tab[e as usize] {
            Some(t) => t[i],
            None => match self.n[e as usize] {
                N::Const(x) => x,
                _ => panic!("tabval"),
            },
        }
    }
    /// finish a node: tabulate when it depends on a single small variable
    fn mk(&mut self, n: N, w: u8, kids: &[E]) -> V {
        let sup = self.sup_of(kids);
        match sup {
            Sup::One(v) => {
                let size = self.vars[v as usize].size as usize;
                let mut t = Vec::with_capacity(size);
                match n {
                    N::Bin(op, ow, a, b) => {
                        for i in 0..size {
                            t.push(apply(op, ow as u32, self.tabval(a, i), self.tabval(b, i)));
                        }
                    }
                    N::Cast(k, a) => {
                        let fw = self.w[a as usize] as u32;
                        for i in 0..size {
                            t.push(apply_cast(k, fw, w as u32, self.tabval(a, i)));
                        }
                    }
                    N::Ext(a, lo) => {
                        for i in 0..size {
                            t.push((self.tabval(a, i) >> lo) & mask(w as u32));
                        }
                    }
                    N::Cat(a, b) => {
                        let lw = self.w[b as usize];
                        for i in 0..size {
                            t.push((self.tabval(a, i) << lw) | self.tabval(b, i));
                        }
                    }
                    N::Ite(q, a, b) => {
                        for i in 0..size {
                            t.push(if self.tabval(q, i) != 0 { self.tabval(a, i) } else { self.tabval(b, i) });
                        }
                    }
                    _ => unreachable!(),
                }
                self.intern_tab(n, v, w, t)
            }
            s => self.intern(n, w, s),
        }
    }
    /// explicit function of one variable (a load from constant memory at a symbolic address)
    pub fn mk_table(&mut self, v: u16, w: u32, t: Vec<u64>) -> V {
        let k = self.tabs.len() as u32;
        self.tabs.push(Rc::from(t.clone()));
        self.intern_tab(N::Tab(v, k), v, w as u8, t)
    }

    pub fn not(&mut self, a: V) -> V {
        self.bin(B::Xor, 1, a, c(1))
    }
    pub fn bin(&mut self, op: B, w: u32, a: V, b: V) -> V {
        if a.is_c() && b.is_c() {
            return c(apply(op, w, a.c, b.c));
        }
        let (mut a, mut b) = (a, b);
        // canonical forms of comparisons
        match op {
            B::Ne => {
                let x = self.bin(B::Eq, w, a, b);
                return self.not(x);
            }
            B::Ule => {
                let x = self.bin(B::Ult, w, b, a);
                return self.not(x);
            }
            B::Sle => {
                let x = self.bin(B::Slt, w, b, a);
                return self.not(x);
            }
            _ => {}
        }
        if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq) && (a.is_c() || (!b.is_c() && a.e > b.e)) {
            std::mem::swap(&mut a, &mut b);
        }
        let m = mask(w);
        if a == b {
            match op {
                B::Sub | B::Xor | B::Ult | B::Slt => return c(0),
                B::And | B::Or => return a,
                B::Eq => return c(1),
                _ => {}
            }
        }
        if b.is_c() {
            match (op, b.c) {
                (B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr, 0) => return a,
                (B::And | B::Mul, 0) => return c(0),
                (B::Mul | B::UDiv, 1) => return a,
                (B::And, x) if x == m => return a,
                (B::Or, x) if x == m => return c(m),
                (B::Ult, 0) => return c(0),
                (B::Shl | B::LShr, x) if x >= w as u64 => return c(0),
                _ => {}
            }
        }
        if a.is_c() && a.c == 0 && matches!(op, B::Shl | B::LShr | B::UDiv | B::URem) {
            return c(0);
        }
        let single = {
            let sa = if a.is_c() { None } else { Some(&self.sup[a.e as usize]) };
            let sb = if b.is_c() { None } else { Some(&self.sup[b.e as usize]) };
            match (sa, sb) {
                (Some(Sup::One(_)), None) | (None, Some(Sup::One(_))) => true,
                (Some(Sup::One(x)), Some(Sup::One(y))) => x == y,
                _ => false,
            }
        };
        if !single {
            if let Some(r) = self.simp(op, w, a, b) {
                return r;
            }
        }
        let ea = self.e_of(a, w);
        let eb = self.e_of(b, w);
        let rw = if is_cmp(op) { 1 } else { w as u8 };
        self.mk(N::Bin(op, w as u8, ea, eb), rw, &[ea, eb])
    }
    fn simp(&mut self, op: B, w: u32, a: V, b: V) -> Option<V> {
        let na = if a.is_c() { N::Nil } else { self.n[a.e as usize] };
        let nb = if b.is_c() { N::Nil } else { self.n[b.e as usize] };
        let v = |e: E| V { e, c: 0 };
        if w == 1 && b.is_c() {
            match op {
                B::Eq => return Some(if b.c == 1 { a } else { self.not(a) }),
                B::Xor => {
                    if let N::Bin(B::Xor, 1, x, y) = na {
                        if self.n[y as usize] == N::Const(1) {
                            return Some(v(x));
                        }
                    }
                }
                _ => {}
            }
        }
        match op {
            B::Eq => {
                if b.is_c() {
                    match na {
                        N::Cat(h, l) => {
                            let lw = self.w[l as usize] as u32;
                            let hw = self.w[h as usize] as u32;
                            let hv = self.v_of(h);
                            let lv = self.v_of(l);
                            let x = self.bin(B::Eq, hw, hv, c(b.c >> lw));
                            let y = self.bin(B::Eq, lw, lv, c(b.c & mask(lw)));
                            return Some(self.bin(B::And, 1, x, y));
                        }
                        N::Cast(Cast::ZExt, x) => {
                            let xw = self.w[x as usize] as u32;
                            if b.c > mask(xw) {
                                return Some(c(0));
                            }
                            return Some(self.bin(B::Eq, xw, v(x), b));
                        }
                        N::Cast(Cast::SExt, x) => {
                            let xw = self.w[x as usize] as u32;
                            let low = b.c & mask(xw);
                            if apply_cast(Cast::SExt, xw, w, low) != b.c {
                                return Some(c(0));
                            }
                            return Some(self.bin(B::Eq, xw, v(x), c(low)));
                        }
                        N::Ite(q, x, y) => {
                            let (nx, ny) = (self.n[x as usize], self.n[y as usize]);
                            if let (N::Const(x), N::Const(y)) = (nx, ny) {
                                return Some(match (x == b.c, y == b.c) {
                                    (true, true) => c(1),
                                    (false, false) => c(0),
                                    (true, false) => v(q),
                                    (false, true) => self.not(v(q)),
                                });
                            }
                            if matches!(nx, N::Const(_)) || matches!(ny, N::Const(_)) {
                                let xv = self.v_of(x);
                                let yv = self.v_of(y);
                                let ex = self.bin(B::Eq, w, xv, b);
                                let ey = self.bin(B::Eq, w, yv, b);
                                return Some(self.ite(v(q), ex, ey, 1));
                            }
                        }
                        N::Bin(B::Or, _, x, y) if b.c == 0 => {
                            let (xv, yv) = (self.v_of(x), self.v_of(y));
                            let ex = self.bin(B::Eq, w, xv, c(0));
                            let ey = self.bin(B::Eq, w, yv, c(0));
                            return Some(self.bin(B::And, 1, ex, ey));
                        }
                        N::Bin(B::Xor, _, x, y) => {
                            if let N::Const(k) = self.n[y as usize] {
                                return Some(self.bin(B::Eq, w, v(x), c(k ^ b.c)));
                            }
                            if b.c == 0 {
                                return Some(self.bin(B::Eq, w, v(x), v(y)));
                            }
                        }
                        N::Bin(B::Add, _, x, y) => {
                            if let N::Const(k) = self.n[y as usize] {
                                return Some(self.bin(B::Eq, w, v(x), c(b.c.wrapping_sub(k) & mask(w))));
                            }
                        }
                        N::Bin(B::Sub, _, x, y) if b.c == 0 => {
                            let (xv, yv) = (self.v_of(x), self.v_of(y));
                            return Some(self.bin(B::Eq, w, xv, yv));
                        }
                        _ => {}
                    }
                } else {
                    match (na, nb) {
                        (N::Cat(h1, l1), N::Cat(h2, l2)) if self.w[l1 as usize] == self.w[l2 as usize] => {
                            let lw = self.w[l1 as usize] as u32;
                            let hw = self.w[h1 as usize] as u32;
                            let (a1, a2, b1, b2) = (self.v_of(h1), self.v_of(h2), self.v_of(l1), self.v_of(l2));
                            let x = self.bin(B::Eq, hw, a1, a2);
                            let y = self.bin(B::Eq, lw, b1, b2);
                            return Some(self.bin(B::And, 1, x, y));
                        }
                        (N::Cast(Cast::ZExt, x), N::Cast(Cast::ZExt, y)) if self.w[x as usize] == self.w[y as usize] => {
                            let xw = self.w[x as usize] as u32;
                            return Some(self.bin(B::Eq, xw, v(x), v(y)));
                        }
                        _ => {}
                    }
                }
            }
            B::Ult if b.is_c() => {
                if let N::Cast(Cast::ZExt, x) = na {
                    let xw = self.w[x as usize] as u32;
                    if b.c > mask(xw) {
                        return Some(c(1));
                    }
                    return Some(self.bin(B::Ult, xw, v(x), b));
                }
            }
            B::Ult if a.is_c() => {
                if let N::Cast(Cast::ZExt, x) = nb {
                    let xw = self.w[x as usize] as u32;
                    if a.c >= mask(xw) {
                        return Some(c(0));
                    }
                    return Some(self.bin(B::Ult, xw, a, v(x)));
                }
            }
            B::And if b.is_c() && w > 1 => {
                // low mask
                let k = b.c.trailing_ones();
                if b.c == mask(k) && k < w {
                    let x = self.ext(a, 0, k);
                    return Some(self.cast(Cast::ZExt, k, w, x));
                }
            }
            B::LShr if b.is_c() => {
                if let N::Cat(h, l) = na {
                    let lw = self.w[l as usize] as u64;
                    let hw = self.w[h as usize] as u32;
                    if b.c >= lw {
                        let hv = self.v_of(h);
                        let z = self.cast(Cast::ZExt, hw, w, hv);
                        return Some(self.bin(B::LShr, w, z, c(b.c - lw)));
                    }
                }
                if let N::Cast(Cast::ZExt, x) = na {
                    let xw = self.w[x as usize] as u32;
                    let y = self.bin(B::LShr, xw, v(x), b);
                    return Some(self.cast(Cast::ZExt, xw, w, y));
                }
            }
            B::Or => {
                for (p, q) in [(a, b), (b, a)] {
                    if p.is_c() || q.is_c() {
                        continue;
                    }
                    if let (N::Bin(B::Shl, _, x, k), N::Cast(Cast::ZExt, l)) = (self.n[p.e as usize], self.n[q.e as usize]) {
                        if let (N::Cast(Cast::ZExt, h), N::Const(k)) = (self.n[x as usize], self.n[k as usize]) {
                            let (hw, lw, k) = (self.w[h as usize] as u32, self.w[l as usize] as u32, k as u32);
                            if lw <= k && k + hw <= w {
                                let lo = self.cast(Cast::ZExt, lw, k, v(l));
                                let cat = self.cat(v(h), hw, lo, k);
                                return Some(self.cast(Cast::ZExt, k + hw, w, cat));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        None
    }
    pub fn v_of(&self, e: E) -> V {
        match self.n[e as usize] {
            N::Const(x) => c(x),
            _ => V { e, c: 0 },
        }
    }
    pub fn cast(&mut self, k: Cast, from: u32, to: u32, a: V) -> V {
        if a.is_c() {
            return c(apply_cast(k, from, to, a.c));
        }
        if from == to && matches!(k, Cast::Trunc | Cast::ZExt | Cast::SExt) {
            return a;
        }
        if k == Cast::Trunc {
            return self.ext(a, 0, to);
        }
        if k == Cast::ZExt || k == Cast::SExt {
            if let N::Cast(Cast::ZExt, x) = self.n[a.e as usize] {
                let xw = self.w[x as usize] as u32;
                return self.cast(Cast::ZExt, xw, to, V { e: x, c: 0 });
            }
        }
        self.mk(N::Cast(k, a.e), to as u8, &[a.e])
    }
    pub fn ext(&mut self, a: V, lo: u32, w: u32) -> V {
        if a.is_c() {
            return c((a.c >> lo) & mask(w));
        }
        let aw = self.w[a.e as usize] as u32;
        if lo == 0 && w == aw {
            return a;
        }
        if let Sup::Many(_) = self.sup[a.e as usize] {
            match self.n[a.e as usize] {
                N::Cat(h, l) => {
                    let lw = self.w[l as usize] as u32;
                    if lo >= lw {
                        let hv = self.v_of(h);
                        return self.ext(hv, lo - lw, w);
                    }
                    if lo + w <= lw {
                        let lv = self.v_of(l);
                        return self.ext(lv, lo, w);
                    }
                    if lo == 0 {
                        let hv = self.v_of(h);
                        let lv = self.v_of(l);
                        let x = self.ext(hv, 0, w - lw);
                        return self.cat(x, w - lw, lv, lw);
                    }
                }
                N::Cast(Cast::ZExt, x) => {
                    let xw = self.w[x as usize] as u32;
                    let xv = V { e: x, c: 0 };
                    if lo >= xw {
                        return c(0);
                    }
                    if lo + w <= xw {
                        return self.ext(xv, lo, w);
                    }
                    let y = self.ext(xv, lo, xw - lo);
                    return self.cast(Cast::ZExt, xw - lo, w, y);
                }
                N::Ext(x, l0) => return self.ext(V { e: x, c: 0 }, l0 as u32 + lo, w),
                N::Bin(op @ (B::And | B::Or | B::Xor), ow, x, y) => {
                    let (xv, yv) = (self.v_of(x), self.v_of(y));
                    let _ = ow;
                    let p = self.ext(xv, lo, w);
                    let q = self.ext(yv, lo, w);
                    return self.bin(op, w, p, q);
                }
                N::Ite(q, x, y) => {
                    let (xv, yv) = (self.v_of(x), self.v_of(y));
                    let p = self.ext(xv, lo, w);
                    let r = self.ext(yv, lo, w);
                    return self.ite(V { e: q, c: 0 }, p, r, w);
                }
                _ => {}
            }
        }
        self.mk(N::Ext(a.e, lo as u8), w as u8, &[a.e])
    }
    pub fn cat(&mut self, h: V, hw: u32, l: V, lw: u32) -> V {
        if h.is_c() && l.is_c() {
            return c((h.c << lw) | l.c);
        }
        if h.is_c() && h.c == 0 {
            return self.cast(Cast::ZExt, lw, hw + lw, l);
        }
        if !h.is_c() && !l.is_c() {
            // adjacent extracts of one term
            if let (N::Ext(x, lo1), N::Ext(y, lo2)) = (self.n[h.e as usize], self.n[l.e as usize]) {
                if x == y && lo1 as u32 == lo2 as u32 + lw {
                    return self.ext(V { e: x, c: 0 }, lo2 as u32, hw + lw);
                }
            }
        }
        let eh = self.e_of(h, hw);
        let el = self.e_of(l, lw);
        self.mk(N::Cat(eh, el), (hw + lw) as u8, &[eh, el])
    }
    pub fn ite(&mut self, q: V, a: V, b: V, w: u32) -> V {
        if q.is_c() {
            return if q.c != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if w == 1 {
            if a.is_c() && b.is_c() {
                return if a.c == 1 { q } else { self.not(q) };
            }
            if a.is_c() {
                if a.c == 1 {
                    return self.bin(B::Or, 1, q, b);
                }
                let nq = self.not(q);
                return self.bin(B::And, 1, nq, b);
            }
            if b.is_c() {
                if b.c == 0 {
                    return self.bin(B::And, 1, q, a);
                }
                let nq = self.not(q);
                return self.bin(B::Or, 1, nq, a);
            }
        }
        let ea = self.e_of(a, w);
        let eb = self.e_of(b, w);
        self.mk(N::Ite(q.e, ea, eb), w as u8, &[q.e, ea, eb])
    }

    /// a number for an assignment
    pub fn env_id(&mut self, a: &[(u16, u64)]) -> u64 {
        if let Some(k) = self.envs.get(a) {
            return *k;
        }
        let k = self.envs.len() as u64;
        self.envs.insert(a.to_vec(), k);
        k
    }
    /// the term with some variables fixed (`key` identifies the assignment)
    pub fn subst(&mut self, e: E, env: &dyn Fn(u16) -> Option<u64>, key: u64) -> V {
        match &self.sup[e as usize] {
            Sup::None => return self.v_of(e),
            Sup::One(v) => {
                return match env(*v) {
                    Some(x) if self.tab[e as usize].is_some() => c(self.tab[e as usize].as_ref().unwrap()[x as usize]),
                    _ => V { e, c: 0 },
                }
            }
            Sup::Many(l) => {
                if !l.iter().any(|v| env(*v).is_some()) {
                    return V { e, c: 0 };
                }
            }
        }
        if let Some(v) = self.smemo.get(&(e, key)) {
            return *v;
        }
        let w = self.w[e as usize] as u32;
        let r = match self.n[e as usize] {
            N::Bin(op, ow, a, b) => {
                let x = self.subst(a, env, key);
                let y = self.subst(b, env, key);
                self.bin(op, ow as u32, x, y)
            }
            N::Cast(k, a) => {
                let aw = self.w[a as usize] as u32;
                let x = self.subst(a, env, key);
                self.cast(k, aw, w, x)
            }
            N::Ext(a, lo) => {
                let x = self.subst(a, env, key);
                self.ext(x, lo as u32, w)
            }
            N::Cat(a, b) => {
                let (aw, bw) = (self.w[a as usize] as u32, self.w[b as usize] as u32);
                let x = self.subst(a, env, key);
                let y = self.subst(b, env, key);
                self.cat(x, aw, y, bw)
            }
            N::Ite(q, a, b) => {
                let p = self.subst(q, env, key);
                let x = self.subst(a, env, key);
                let y = self.subst(b, env, key);
                self.ite(p, x, y, w)
            }
            _ => V { e, c: 0 },
        };
        self.smemo.insert((e, key), r);
        r
    }
    pub fn truth(&mut self, e: E) -> Dom {
        if let Some(d) = &self.truth[e as usize] {
            return **d;
        }
        let t = self.tab[e as usize].as_ref().unwrap();
        let mut d = [0u64; 4];
        for (i, x) in t.iter().enumerate() {
            if *x != 0 {
                d[i / 64] |= 1 << (i % 64);
            }
        }
        self.truth[e as usize] = Some(Box::new(d));
        d
    }

    pub fn eval(&self, e: E, env: &dyn Fn(u16) -> u64, memo: &mut FxMap<E, u64>) -> u64 {
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let w = self.w[e as usize] as u32;
        let r = if let (Sup::One(v), Some(t)) = (&self.sup[e as usize], &self.tab[e as usize]) {
            t[env(*v) as usize]
        } else {
            match self.n[e as usize] {
                N::Nil => 0,
                N::Var(v) => env(v),
                N::Const(x) => x,
                N::Bin(op, ow, a, b) => {
                    let x = self.eval(a, env, memo);
                    let y = self.eval(b, env, memo);
                    apply(op, ow as u32, x, y)
                }
                N::Cast(k, a) => apply_cast(k, self.w[a as usize] as u32, w, self.eval(a, env, memo)),
                N::Ext(a, lo) => (self.eval(a, env, memo) >> lo) & mask(w),
                N::Cat(a, b) => (self.eval(a, env, memo) << self.w[b as usize]) | self.eval(b, env, memo),
                N::Ite(q, a, b) => {
                    if self.eval(q, env, memo) != 0 {
                        self.eval(a, env, memo)
                    } else {
                        self.eval(b, env, memo)
                    }
                }
                N::Tab(v, k) => self.tabs[k as usize][env(v) as usize],
            }
        };
        memo.insert(e, r);
        r
    }

    // ------------------------------------------------------------ Z3
    fn bvs(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.z, w) }
    }
    fn num(&self, x: u64, w: u32) -> P {
        unsafe { Z3_mk_unsigned_int64(self.z, x, self.bvs(w)) }
    }
    fn zv(&mut self, v: u16) -> P {
        while self.zvar.len() <= v as usize {
            let i = self.zvar.len();
            let w = self.vars[i].bits as u32;
            unsafe {
                let s = Z3_mk_int_symbol(self.z, i as i32);
                let p = Z3_mk_const(self.z, s, self.bvs(w));
                self.zvar.push(p);
            }
        }
        self.zvar[v as usize]
    }
    fn b2v(&self, b: P) -> P {
        unsafe { Z3_mk_ite(self.z, b, self.num(1, 1), self.num(0, 1)) }
    }
    pub fn term(&mut self, e: E) -> P {
        let i = e as usize;
        if self.zast.len() <= i {
            self.zast.resize(self.n.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.zast[i].is_null() {
            return self.zast[i];
        }
        let z = self.z;
        let w = self.w[i] as u32;
        let node = self.n[i];
        let flat = if self.flat[i] { self.tab[i].clone() } else { None };
        let r = unsafe {
            match node {
                _ if flat.is_some() => {
                    let v = if let Sup::One(v) = self.sup[i] { v } else { panic!() };
                    self.steps_of(v, w, &flat.unwrap())
                }
                N::Nil => panic!("nil"),
                N::Var(v) => self.zv(v),
                N::Const(x) => self.num(x, w),
                N::Bin(op, ow, a, b) => {
                    let x = self.term(a);
                    let y = self.term(b);
                    let f = |p: P| Z3_mk_fpa_to_fp_bv(z, p, Z3_mk_fpa_sort_64(z));
                    let rm = || Z3_mk_fpa_round_nearest_ties_to_even(z);
                    let _ = ow;
                    match op {
                        B::Add => Z3_mk_bvadd(z, x, y),
                        B::Sub => Z3_mk_bvsub(z, x, y),
                        B::Mul => Z3_mk_bvmul(z, x, y),
                        B::UDiv => Z3_mk_bvudiv(z, x, y),
                        B::SDiv => Z3_mk_bvsdiv(z, x, y),
                        B::URem => Z3_mk_bvurem(z, x, y),
                        B::SRem => Z3_mk_bvsrem(z, x, y),
                        B::Shl => Z3_mk_bvshl(z, x, y),
                        B::LShr => Z3_mk_bvlshr(z, x, y),
                        B::AShr => Z3_mk_bvashr(z, x, y),
                        B::And => Z3_mk_bvand(z, x, y),
                        B::Or => Z3_mk_bvor(z, x, y),
                        B::Xor => Z3_mk_bvxor(z, x, y),
                        B::Eq => self.b2v(Z3_mk_eq(z, x, y)),
                        B::Ne => self.b2v(Z3_mk_not(z, Z3_mk_eq(z, x, y))),
                        B::Ult => self.b2v(Z3_mk_bvult(z, x, y)),
                        B::Ule => self.b2v(Z3_mk_bvule(z, x, y)),
                        B::Slt => self.b2v(Z3_mk_bvslt(z, x, y)),
                        B::Sle => self.b2v(Z3_mk_bvsle(z, x, y)),
                        B::FAdd => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_add(z, rm(), f(x), f(y))),
                        B::FSub => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sub(z, rm(), f(x), f(y))),
                        B::FMul => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_mul(z, rm(), f(x), f(y))),
                        B::FDiv => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_div(z, rm(), f(x), f(y))),
                        B::FOeq => self.b2v(Z3_mk_fpa_eq(z, f(x), f(y))),
                        B::FOlt => self.b2v(Z3_mk_fpa_lt(z, f(x), f(y))),
                        B::FOle => self.b2v(Z3_mk_fpa_leq(z, f(x), f(y))),
                        B::FUno => {
                            let l = [Z3_mk_fpa_is_nan(z, f(x)), Z3_mk_fpa_is_nan(z, f(y))];
                            self.b2v(Z3_mk_or(z, 2, l.as_ptr()))
                        }
                    }
                }
                N::Cast(k, a) => {
                    let x = self.term(a);
                    let aw = self.w[a as usize] as u32;
                    let s = Z3_mk_fpa_sort_64(z);
                    let rne = Z3_mk_fpa_round_nearest_ties_to_even(z);
                    match k {
                        Cast::Trunc => Z3_mk_extract(z, w - 1, 0, x),
                        Cast::ZExt => Z3_mk_zero_ext(z, w - aw, x),
                        Cast::SExt => Z3_mk_sign_ext(z, w - aw, x),
                        Cast::UIToFP => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_unsigned(z, rne, x, s)),
                        Cast::SIToFP => Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_signed(z, rne, x, s)),
                        Cast::FPToUI => Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_round_toward_zero(z), Z3_mk_fpa_to_fp_bv(z, x, s), w),
                        Cast::FPToSI => Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_round_toward_zero(z), Z3_mk_fpa_to_fp_bv(z, x, s), w),
                        Cast::FNeg => Z3_mk_bvxor(z, x, self.num(1 << 63, 64)),
                    }
                }
                N::Ext(a, lo) => {
                    let x = self.term(a);
                    Z3_mk_extract(z, lo as u32 + w - 1, lo as u32, x)
                }
                N::Cat(a, b) => {
                    let x = self.term(a);
                    let y = self.term(b);
                    Z3_mk_concat(z, x, y)
                }
                N::Ite(q, a, b) => {
                    let p = self.term(q);
                    let x = self.term(a);
                    let y = self.term(b);
                    Z3_mk_ite(z, Z3_mk_eq(z, p, self.num(1, 1)), x, y)
                }
                N::Tab(v, k) => {
                    let t = self.tabs[k as usize].clone();
                    self.steps_of(v, w, &t)
                }
            }
        };
        if self.zast.len() <= i {
            self.zast.resize(self.n.len(), std::ptr::null_mut());
        }
        self.zast[i] = r;
        r
    }
    /// step function of the variable: nested ite over maximal runs
    fn steps_of(&mut self, v: u16, w: u32, t: &[u64]) -> P {
        let z = self.z;
        let x = self.zv(v);
        let vw = self.vars[v as usize].bits as u32;
        let mut acc = self.num(t[t.len() - 1], w);
        let mut i = t.len() - 1;
        while i > 0 {
            if t[i - 1] != t[i] {
                acc = unsafe { Z3_mk_ite(z, Z3_mk_bvule(z, x, self.num(i as u64 - 1, vw)), self.num(t[i - 1], w), acc) };
            }
            i -= 1;
        }
        acc
    }
    fn member(&mut self, v: u16, d: &Dom) -> P {
        let x = self.zv(v);
        let vw = self.vars[v as usize].bits as u32;
        let z = self.z;
        let mut parts = vec![];
        let has = |i: u32| i < 256 && d[(i / 64) as usize] >> (i % 64) & 1 == 1;
        let mut i = 0u32;
        while i < 256 {
            if has(i) {
                let s = i;
                while has(i + 1) {
                    i += 1;
                }
                unsafe {
                    if s == i {
                        parts.push(Z3_mk_eq(z, x, self.num(s as u64, vw)));
                    } else {
                        let l = [Z3_mk_bvule(z, self.num(s as u64, vw), x), Z3_mk_bvule(z, x, self.num(i as u64, vw))];
                        parts.push(Z3_mk_and(z, 2, l.as_ptr()));
                    }
                }
            }
            i += 1;
        }
        unsafe {
            if parts.is_empty() {
                Z3_mk_false(z)
            } else if parts.len() == 1 {
                parts[0]
            } else {
                Z3_mk_or(z, parts.len() as u32, parts.as_ptr())
            }
        }
    }
    fn check(&mut self, fs: &[P]) -> i32 {
        let t = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_push(self.z, self.s);
            for f in fs {
                Z3_solver_assert(self.z, self.s, *f);
            }
            Z3_solver_check(self.z, self.s)
        };
        self.st.queries += 1;
        match r {
            1 => self.st.sat += 1,
            -1 => self.st.unsat += 1,
            _ => self.st.unknown += 1,
        }
        self.st.ns += t.elapsed().as_nanos() as u64;
        r
    }
    fn pop(&mut self) {
        unsafe { Z3_solver_pop(self.z, self.s, 1) }
    }

    /// Z3 decides, for the path condition `v in dom`, which outcomes of `e` are feasible:
    /// `groups` = (non-empty sub-domain, predicate on e). One query (unsatisfiable when all is well)
    /// establishes that each group's predicate characterises its sub-domain; the groups cover `dom`.
    pub fn decide(&mut self, e: E, v: u16, dom: &Dom, groups: &[(Dom, Pred)]) -> Result<(), String> {
        if !self.verify {
            return Ok(());
        }
        let key = (e, v, *dom, groups.iter().map(|g| g.0).collect::<Vec<Dom>>());
        if self.pcache.contains_key(&key) {
            self.st.cache_hits += 1;
            return Ok(());
        }
        self.st.part += 1;
        let tq = std::time::Instant::now();
        let z = self.z;
        let base = self.member(v, dom);
        let ew = self.w[e as usize] as u32;
        let t = if self.big[e as usize] {
            // the table it was folded to, on the path's domain
            let tab = self.tab[e as usize].as_ref().unwrap().clone();
            let mut l = tab.to_vec();
            let mut last = None;
            for i in 0..l.len() {
                if dom[i / 64] >> (i % 64) & 1 == 1 {
                    if last.is_none() {
                        for k in 0..i {
                            l[k] = l[i];
                        }
                    }
                    last = Some(l[i]);
                } else if let Some(x) = last {
                    l[i] = x;
                }
            }
            self.steps_of(v, ew, &l)
        } else {
            self.term(e)
        };
        let mut bad = vec![];
        for (d, p) in groups {
            let pr = unsafe {
                match p {
                    Pred::In(vals) => {
                        let l: Vec<P> = vals.iter().map(|x| Z3_mk_eq(z, t, self.num(*x, ew))).collect();
                        Z3_mk_or(z, l.len() as u32, l.as_ptr())
                    }
                    Pred::NotIn(vals) => {
                        let l: Vec<P> = vals.iter().map(|x| Z3_mk_eq(z, t, self.num(*x, ew))).collect();
                        Z3_mk_not(z, Z3_mk_or(z, l.len() as u32, l.as_ptr()))
                    }
                }
            };
            // feasible: the sub-domain is not empty, and the query below equates the two
            if *d == [0u64; 4] {
                return Err("empty outcome".into());
            }
            let m = self.member(v, d);
            unsafe {
                // predicate <=> membership in the refined domain
                let x = Z3_mk_eq(z, pr, m);
                bad.push(Z3_mk_not(z, x));
            }
        }
        let f = unsafe { Z3_mk_or(z, bad.len() as u32, bad.as_ptr()) };
        // exhaustive by construction of the predicates when the sub-domains cover dom
        let mut u = [0u64; 4];
        for (d, _) in groups {
            for k in 0..4 {
                u[k] |= d[k];
            }
        }
        if u != *dom {
            return Err("domain split is not exhaustive".into());
        }
        let r = self.check(&[base, f]);
        self.pop();
        if r != -1 {
            return Err(format!("solver: split of e{} disagrees with the term ({})", e, r));
        }
        if std::env::var("SLOW").is_ok() { unsafe { eprintln!("{}us groups {} w{} node {:?} :: {}", tq.elapsed().as_micros(), groups.len(), ew, self.n[e as usize], { let s=std::ffi::CStr::from_ptr(Z3_ast_to_string(z,t)).to_string_lossy().replace('\n'," "); s[..s.len().min(300)].to_string()}) } }
        self.pcache.insert(key, ());
        Ok(())
    }

    /// satisfiability of a conjunction of constraints over several variables.
    /// `doms` gives the current domain of every small variable involved.
    pub fn solve(&mut self, cons: &[(E, bool)], doms: &[(u16, Option<Dom>)]) -> Result<Option<Vec<(u16, u64)>>, String> {
        let mut key: Vec<u64> = Vec::with_capacity(cons.len() + doms.len() * 5);
        for (e, b) in cons {
            key.push((*e as u64) << 1 | *b as u64);
        }
        key.sort();
        key.dedup();
        for (v, d) in doms {
            if let Some(d) = d {
                key.push(1 << 40 | *v as u64);
                key.extend_from_slice(d);
            }
        }
        if let Some(r) = self.qcache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(r.clone());
        }
        let z = self.z;
        let mut fs = vec![];
        for (v, d) in doms {
            if let Some(d) = d {
                fs.push(self.member(*v, d));
            }
        }
        for (e, b) in cons {
            let t = self.term(*e);
            let k = self.num(*b as u64, 1);
            fs.push(unsafe { Z3_mk_eq(z, t, k) });
        }
        let r = self.check(&fs);
        let out = match r {
            1 => {
                let mut m = vec![];
                unsafe {
                    let md = Z3_solver_get_model(self.z, self.s);
                    Z3_model_inc_ref(self.z, md);
                    for (v, _) in doms {
                        let x = self.zv(*v);
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(self.z, md, x, true, &mut o) {
                            Z3_get_numeral_uint64(self.z, o, &mut val);
                        }
                        m.push((*v, val));
                    }
                    Z3_model_dec_ref(self.z, md);
                }
                Some(m)
            }
            -1 => None,
            _ => {
                self.pop();
                return Err("solver: unknown".into());
            }
        };
        self.pop();
        self.qcache.insert(key, out.clone());
        Ok(out)
    }
}

#[derive(Debug, Clone)]
pub enum Pred {
    In(Vec<u64>),
    NotIn(Vec<u64>),
}

impl Hash for Sup {
    fn hash<H: Hasher>(&self, _h: &mut H) {}
}
