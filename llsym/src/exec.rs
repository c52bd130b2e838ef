//! Path-forking symbolic execution of LLVM IR.
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;

#[derive(Clone, Debug)]
pub enum V { C(u128), S(E), A(Rc<Vec<V>>) }

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: HashMap<u32, (E, u8)>, pub ro: bool }

#[derive(Clone)]
pub struct Frame { f: Arc<Func>, regs: Vec<V>, blk: u32, prev: u32, ip: usize, dest: Option<u32>, inv: Option<(u32, u32)>, allocas: Vec<u32>, catch: bool }

#[derive(Clone, Copy)]
pub struct Dec { both: bool, tried: u128, fixes: u64 }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    mem: Vec<Option<Rc<Obj>>>,
    pub pc: Vec<E>,
    known: HashMap<E, bool>,
    vals: HashMap<E, u128>,
    fixed: HashMap<u32, u128>,
    pub model: Vec<u128>,
    pub widths: Vec<u16>,
    pub trace: Vec<V>,
    /// one entry for each decision made: were both outcomes possible, and the value tried
    pub decs: Vec<Dec>,
    pub steps: u64,
    exn: u64,
    pub panic_at: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End { Done, Panic(String), Abort(String), Assumed, Hang, Error(String) }

#[derive(Clone, Debug)]
pub struct Finding { pub case: u32, pub label: String, pub model: Vec<u128>, pub kind: &'static str }

#[derive(Default, Clone)]
pub struct Stats { pub paths: u64, pub assumed: u64, pub forks: u64, pub decisions: u64, pub obligations: u64, pub checks_concrete: u64, pub insts: u64, pub max_vars: usize, pub max_depth: u64, pub cache_hits: u64, pub model_hits: u64, pub solver_unsat: u64, pub rechecked: u64 }

pub struct Leaf { pub case: u32, pub model: Vec<u128>, pub trace: Vec<u128>, pub end: String }

enum Ctl { Next, Jumped, End(End) }
type Res<T> = Result<T, End>;

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub solver: Solver,
    pub second: Option<Solver>,
    pub work: Vec<State>,
    pub stats: Stats,
    pub findings: Vec<Finding>,
    pub leaves: Vec<Leaf>,
    pub case: u32,
    pub prefix: Vec<Dec>,
    pub step_limit: u64,
    pub covered: Vec<Vec<bool>>,
    cache: HashMap<Vec<E>, Ans>,
    recent: Vec<Vec<(u32, u128)>>,
    kinds: HashMap<usize, Kind>,
    pub unknowns: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Normal, Alloc, AllocZ, Dealloc, Realloc, Malloc, Calloc, CRealloc, Free, Nop, Panic, Abort, RandKeys, SxAny, SxAssume, SxCheck, SxNote, SxCatch, SxPin, Memcpy, Memset, Bcmp, Memcmp, Strlen, Intrinsic, IsPanicking }

fn kind_of(n: &str, has_body: bool) -> Kind {
    let ends = |s: &str| n == s || n.ends_with(s);
    if n.starts_with("llvm.") { return Kind::Intrinsic; }
    match n {
        "sx_any" => return Kind::SxAny, "sx_assume" => return Kind::SxAssume, "sx_check" => return Kind::SxCheck, "sx_note" => return Kind::SxNote, "sx_catch" => return Kind::SxCatch, "sx_pin" => return Kind::SxPin,
        "malloc" => return Kind::Malloc, "calloc" => return Kind::Calloc, "realloc" => return Kind::CRealloc, "free" => return Kind::Free,
        "memcpy" | "memmove" => return Kind::Memcpy, "memset" => return Kind::Memset, "bcmp" => return Kind::Bcmp, "memcmp" => return Kind::Memcmp, "strlen" => return Kind::Strlen,
        "abort" | "exit" | "_exit" => return Kind::Abort,
        "__cxa_thread_atexit_impl" => return Kind::Nop,
        _ => {}
    }
    if ends("___rust_alloc") { return Kind::Alloc; }
    if ends("___rust_alloc_zeroed") { return Kind::AllocZ; }
    if ends("___rust_dealloc") { return Kind::Dealloc; }
    if ends("___rust_realloc") { return Kind::Realloc; }
    if ends("___rust_no_alloc_shim_is_unstable_v2") || ends("___rust_no_alloc_shim_is_unstable") { return Kind::Nop; }
    if n.contains("panicking19panic_cannot_unwind") || n.contains("panicking16panic_in_cleanup") || n.contains("panicking14panic_nounwind") || n.contains("panic_nounwind") { return Kind::Abort; }
    if n.contains("9panicking9panic_fmt") || ends("rust_begin_unwind") || n.contains("9panicking11begin_panic") || n.contains("18handle_alloc_error") || n.contains("20rust_panic_with_hook") || n.contains("9panicking13assert_failed") { return Kind::Panic; }
    if n.contains("hashmap_random_keys") { return Kind::RandKeys; }
    if n.contains("panicking11panic_count17is_zero_slow_path") { return Kind::IsPanicking; }
    let _ = has_body;
    Kind::Normal
}

pub fn globals_memory(m: &Module) -> Vec<Option<Rc<Obj>>> {
    fn put(data: &mut [u8], off: u64, ty: &Ty, k: &K) {
        match k {
            K::Int(v) => { let n = ty.size() as usize; for i in 0..n.min(16) { data[off as usize + i] = (v >> (8 * i)) as u8; } }
            K::Agg(v) => for (i, x) in v.iter().enumerate() { put(data, off + ty.offset(i), ty.elem(i), x); },
        }
    }
    m.globals.iter().map(|g| {
        let mut data = vec![0u8; g.size.max(1) as usize];
        if let Some((t, k)) = &g.init { put(&mut data, 0, t, k); }
        Some(Rc::new(Obj { data, sym: HashMap::new(), ro: g.ro }))
    }).collect()
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module) -> Exec<'m> {
        Exec { m, ar: Arena::new(), solver: Solver::new(), second: None, work: vec![], stats: Stats::default(), findings: vec![], leaves: vec![], case: 0, prefix: vec![], step_limit: 3_000_000, covered: (0..m.fns.len()).map(|_| vec![]).collect(), cache: HashMap::new(), recent: vec![], kinds: HashMap::new(), unknowns: vec![] }
    }
    /// forget the expressions of earlier cases
    pub fn reset(&mut self) { self.ar = Arena::new(); self.cache.clear(); self.recent.clear(); }

    pub fn start(&mut self, base: &[Option<Rc<Obj>>], entry: &str, args: &[u128], model: Vec<u128>) -> Res<State> {
        let id = *self.m.fn_by_name.get(entry).ok_or(End::Error(format!("no {}", entry)))?;
        let f = self.m.func(id).map_err(End::Error)?;
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, a) in args.iter().enumerate() { regs[f.params[i] as usize] = V::C(*a); }
        let fr = Frame { f, regs, blk: 0, prev: 0, ip: 0, dest: None, inv: None, allocas: vec![], catch: false };
        Ok(State { frames: vec![fr], mem: base.to_vec(), pc: vec![], known: HashMap::new(), vals: HashMap::new(), fixed: HashMap::new(), model, widths: vec![], trace: vec![], decs: vec![], steps: 0, exn: 0, panic_at: String::new() })
    }

    // ---- conditions -------------------------------------------------------------------------
    fn slice(&self, st: &State, cond: E) -> Vec<E> {
        let mut vars: Vec<u32> = self.ar.vars(cond).to_vec();
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut grew = false;
            for (i, &c) in st.pc.iter().enumerate() {
                if used[i] { continue; }
                let cv = self.ar.vars(c);
                if cv.iter().any(|v| vars.binary_search(v).is_ok()) {
                    used[i] = true;
                    for v in cv.iter() { if let Err(p) = vars.binary_search(v) { vars.insert(p, *v); grew = true; } }
                }
            }
            if !grew { break; }
        }
        let mut r: Vec<E> = (0..st.pc.len()).filter(|&i| used[i]).map(|i| st.pc[i]).collect();
        r.push(cond);
        r.sort();
        r.dedup();
        r
    }
    /// a model of the path condition together with `cond`, if there is one
    fn sat(&mut self, st: &State, cond: E) -> Res<Option<Vec<u128>>> {
        let q = self.slice(st, cond);
        let merge = |m: &[(u32, u128)]| { let mut r = st.model.clone(); for &(i, v) in m { if (i as usize) >= r.len() { r.resize(i as usize + 1, 0); } r[i as usize] = v; } r };
        if let Some(a) = self.cache.get(&q) {
            self.stats.cache_hits += 1;
            return Ok(match a { Ans::Sat(m) => Some(merge(m)), _ => None });
        }
        let mut qv: Vec<u32> = vec![];
        for &e in &q { for v in self.ar.vars(e).iter() { if let Err(p) = qv.binary_search(v) { qv.insert(p, *v); } } }
        for k in 0..self.recent.len() {
            // only the variables in question: the others keep the values that this path needs
            let part: Vec<(u32, u128)> = self.recent[k].iter().filter(|x| qv.binary_search(&x.0).is_ok()).cloned().collect();
            let m = merge(&part);
            if q.iter().all(|&e| self.ar.eval(e, &m) == 1) { self.stats.model_hits += 1; return Ok(Some(m)); }
        }
        let a = self.solver.check(&self.ar, &q);
        match &a {
            Ans::Sat(m) => {
                let full = merge(m);
                for &e in &q { if self.ar.eval(e, &full) != 1 { return Err(End::Error("the solver's model does not satisfy the constraints".into())); } }
                self.recent.insert(0, m.clone());
                self.recent.truncate(6);
                self.cache.insert(q, a);
                Ok(Some(full))
            }
            Ans::Unsat => {
                self.stats.solver_unsat += 1;
                if let Some(s2) = &mut self.second { match s2.check(&self.ar, &q) { Ans::Unsat => self.stats.rechecked += 1, Ans::Unknown(_) => {} Ans::Sat(_) => return Err(End::Error("two solvers disagree".into())) } }
                self.cache.insert(q, Ans::Unsat);
                Ok(None)
            }
            Ans::Unknown(s) => Err(End::Error(format!("solver: {}", s))),
        }
    }
    fn learn(&mut self, st: &mut State, cond: E, v: bool) {
        let c = if v { cond } else { self.ar.not(cond) };
        let nc = self.ar.not(c);
        st.known.insert(c, true);
        st.known.insert(nc, false);
    }
    fn assume(&mut self, st: &mut State, cond: E, v: bool) {
        self.learn(st, cond, v);
        let c = if v { cond } else { self.ar.not(cond) };
        self.push_pc(st, c);
    }
    fn push_pc(&mut self, st: &mut State, c: E) {
        let n = self.ar.n[c as usize];
        if n.op == Op::And && n.w == 1 { st.known.insert(c, true); self.push_pc(st, n.a); self.push_pc(st, n.b); return; }
        if n.op == Op::Eq { if let Some(k) = self.ar.con(n.b) { let na = self.ar.n[n.a as usize]; if na.op == Op::Var { st.fixed.insert(na.k as u32, k); } } }
        if n.op == Op::Var { st.fixed.insert(n.k as u32, 1); }
        if n.op == Op::Xor && n.w == 1 && self.ar.con(n.b) == Some(1) { let na = self.ar.n[n.a as usize]; if na.op == Op::Var { st.fixed.insert(na.k as u32, 0); } }
        st.known.insert(c, true);
        let nc = self.ar.not(c);
        st.known.insert(nc, false);
        if self.ar.con(c).is_none() && !st.pc.contains(&c) { st.pc.push(c); }
    }
    /// value of a condition if it follows without asking the solver
    fn settled(&self, st: &State, cond: E) -> Option<bool> {
        if let Some(k) = self.ar.con(cond) { return Some(k != 0); }
        if let Some(&b) = st.known.get(&cond) { return Some(b); }
        if self.ar.vars(cond).iter().all(|v| st.fixed.contains_key(v)) { return Some(self.ar.eval(cond, &st.model) != 0); }
        None
    }
    /// Decides a condition; the other outcome, when it is possible, goes on the work list as a copy of `before`.
    fn decide(&mut self, st: &mut State, cond: E) -> Res<bool> { self.decide_on(st, cond, 0) }
    fn decide_on(&mut self, st: &mut State, cond: E, tried: u128) -> Res<bool> {
        if let Some(b) = self.settled(st, cond) { return Ok(b); }
        let v = self.ar.eval(cond, &st.model) != 0;
        if let Some(&d) = self.prefix.get(st.decs.len()) {
            st.decs.push(d);
            if d.both { self.assume(st, cond, v); } else { self.learn(st, cond, v); }
            return Ok(v);
        }
        self.stats.decisions += 1;
        let other = if v { self.ar.not(cond) } else { cond };
        match self.sat(st, other)? {
            Some(m) => {
                let mut o = st.clone();
                o.decs.push(Dec { both: true, tried, fixes: 0 });
                self.assume(&mut o, cond, !v);
                o.model = m;
                self.work.push(o);
                self.stats.forks += 1;
                self.assume(st, cond, v);
                st.decs.push(Dec { both: true, tried, fixes: 0 });
            }
            None => { self.learn(st, cond, v); st.decs.push(Dec { both: false, tried, fixes: 0 }); }
        }
        Ok(v)
    }
    /// The value to try next for an expression.  A replay of earlier decisions tries the values they tried.
    fn attempt(&mut self, st: &State, e: E) -> u128 { match self.prefix.get(st.decs.len()) { Some(d) => d.tried, None => self.ar.eval(e, &st.model) } }
    /// one concrete value for an expression; other values are explored by copies
    fn concrete(&mut self, st: &mut State, v: &V) -> Res<u128> {
        match v {
            V::C(k) => Ok(*k),
            V::S(e) => {
                if let Some(k) = st.vals.get(e) { return Ok(*k); }
                let w = self.ar.w(*e);
                loop {
                    let now = self.ar.eval(*e, &st.model);
                    let kc = self.ar.k(now, w);
                    let c = self.ar.bin(Op::Eq, *e, kc);
                    if self.settled(st, c) == Some(true) { st.vals.insert(*e, now); return Ok(now); }
                    let k = self.attempt(st, *e);
                    let kc = self.ar.k(k, w);
                    let c = self.ar.bin(Op::Eq, *e, kc);
                    if self.decide_on(st, c, k)? { st.vals.insert(*e, k); self.fix(st, *e)?; return Ok(k); }
                }
            }
            V::A(_) => Err(End::Error("aggregate where a number is needed".into())),
        }
    }
    /// variables that an expression's value leaves only one value for need no more questions
    fn fix(&mut self, st: &mut State, e: E) -> Res<()> {
        let vars: Vec<u32> = self.ar.vars(e).to_vec();
        if vars.len() > 8 { return Ok(()); }
        let at = st.decs.len() - 1;
        let replay = self.prefix.get(at).map(|d| d.fixes);
        let mut bits = 0u64;
        for (i, v) in vars.iter().enumerate() {
            if st.fixed.contains_key(v) { continue; }
            let w = st.widths[*v as usize];
            let k = st.model[*v as usize];
            let (x, kc) = (self.ar.var(*v, w), self.ar.k(k, w));
            let q = self.ar.bin(Op::Eq, x, kc);
            let nq = self.ar.not(q);
            let is = match replay { Some(b) => b >> i & 1 != 0, None => self.sat(st, nq)?.is_none() };
            if is { bits |= 1 << i; self.push_pc(st, q); }
        }
        st.decs[at].fixes = bits;
        Ok(())
    }
    fn truth(&mut self, st: &mut State, v: &V) -> Res<bool> {
        match v { V::C(k) => Ok(k & 1 != 0), V::S(e) => self.decide(st, *e), V::A(_) => Err(End::Error("aggregate condition".into())) }
    }

    // ---- values -----------------------------------------------------------------------------
    fn kv(k: &K) -> V { match k { K::Int(v) => V::C(*v), K::Agg(v) => V::A(Rc::new(v.iter().map(Self::kv).collect())) } }
    fn op(st: &State, o: &Opd) -> V { match o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(k) => Self::kv(k) } }
    fn ex(&mut self, v: &V, w: u16) -> E { match v { V::C(k) => self.ar.k(*k, w), V::S(e) => *e, V::A(_) => panic!("aggregate") } }
    fn val(&self, e: E) -> V { match self.ar.con(e) { Some(k) => V::C(k), None => V::S(e) } }
    fn bin(&mut self, op: Op, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
            return V::C(fold(op, rw, w, w, x & mask(w), y & mask(w), 0, 0));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.bin(op, x, y);
        self.val(e)
    }
    fn not1(&mut self, a: &V) -> V { match a { V::C(k) => V::C(1 - (k & 1)), V::S(e) => { let e = self.ar.not(*e); self.val(e) } V::A(_) => panic!() } }
    fn ite(&mut self, c: &V, w: u16, a: &V, b: &V) -> V {
        match c {
            V::C(k) => if k & 1 != 0 { a.clone() } else { b.clone() },
            V::S(c) => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let e = self.ar.ite(*c, x, y);
                self.val(e)
            }
            _ => panic!(),
        }
    }
    fn select(&mut self, c: &V, ty: &Ty, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => { let v = (0..x.len()).map(|i| { let ci = if let V::A(cs) = c { cs[i].clone() } else { c.clone() }; self.select(&ci, ty.elem(i), &x[i], &y[i]) }).collect(); V::A(Rc::new(v)) }
            _ => self.ite(c, ty.bits(), a, b),
        }
    }
    fn zext(&mut self, a: &V, w: u16) -> V { match a { V::C(k) => V::C(*k), V::S(e) => { let e = self.ar.zext(*e, w); self.val(e) } _ => panic!() } }
    fn trunc(&mut self, a: &V, w: u16) -> V { match a { V::C(k) => V::C(k & mask(w)), V::S(e) => { let e = self.ar.extract(*e, w - 1, 0); self.val(e) } _ => panic!() } }
    fn cast(&mut self, c: Cast, from: &Ty, to: &Ty, v: &V) -> V {
        if let (Ty::Vec(..), Ty::Vec(..), V::A(x)) = (from, to, v) { if c != Cast::Same { let r = (0..x.len()).map(|i| self.cast(c, from.elem(i), to.elem(i), &x[i])).collect(); return V::A(Rc::new(r)); } }
        match c {
            Cast::Zext => self.zext(v, to.bits()),
            Cast::Sext => match v { V::C(k) => V::C(sx(*k, from.bits()) as u128 & mask(to.bits())), V::S(e) => { let e = self.ar.sext(*e, to.bits()); self.val(e) } _ => panic!() },
            Cast::Trunc => self.trunc(v, to.bits()),
            Cast::Same => {
                if matches!(from, Ty::Vec(..)) || matches!(to, Ty::Vec(..)) { let (b, w) = self.to_bits(from, v); return self.from_bits(to, &b, w).0; }
                let (fw, tw) = (from.bits(), to.bits());
                if fw == tw { v.clone() } else if fw < tw { self.zext(v, tw) } else { self.trunc(v, tw) }
            }
        }
    }
    fn to_bits(&mut self, ty: &Ty, v: &V) -> (V, u16) {
        match (ty, v) {
            (Ty::Vec(n, t), V::A(x)) => {
                let ew = t.bits();
                let mut acc: Option<(V, u16)> = None;
                for i in 0..*n as usize {
                    acc = Some(match acc { None => (x[i].clone(), ew), Some((lo, lw)) => (self.concat(&x[i], ew, &lo, lw), lw + ew) });
                }
                acc.unwrap()
            }
            _ => (v.clone(), ty.bits()),
        }
    }
    fn concat(&mut self, hi: &V, hw: u16, lo: &V, lw: u16) -> V {
        if let (V::C(h), V::C(l)) = (hi, lo) { if hw + lw <= 128 { return V::C((h << lw) | (l & mask(lw))); } }
        let (h, l) = (self.ex(hi, hw), self.ex(lo, lw));
        let e = self.ar.bin(Op::Concat, h, l);
        self.val(e)
    }
    fn from_bits(&mut self, ty: &Ty, v: &V, w: u16) -> (V, u16) {
        match ty {
            Ty::Vec(n, t) => {
                let ew = t.bits();
                let r = (0..*n as u16).map(|i| match v { V::C(k) => V::C((k >> (i * ew)) & mask(ew)), V::S(e) => { let e = self.ar.extract(*e, i * ew + ew - 1, i * ew); self.val(e) } _ => panic!() }).collect();
                (V::A(Rc::new(r)), w)
            }
            _ => (v.clone(), w),
        }
    }

    // ---- memory -----------------------------------------------------------------------------
    fn alloc(&mut self, st: &mut State, size: u64, zero: bool) -> Res<u64> {
        if size > 1 << 24 { return Err(End::Error(format!("allocation of {} bytes", size))); }
        let id = st.mem.len() as u64;
        st.mem.push(Some(Rc::new(Obj { data: vec![if zero { 0 } else { 0xa5 }; size as usize], sym: HashMap::new(), ro: false })));
        Ok((id + 1) << 32)
    }
    fn locate(&self, st: &State, a: u64, n: u64, write: bool) -> Res<(usize, usize)> {
        let id = (a >> 32) as usize;
        if id == 0 || id > st.mem.len() { return Err(End::Abort(format!("access of {} bytes at {:#x}", n, a))); }
        let off = (a & 0xffff_ffff) as usize;
        match &st.mem[id - 1] {
            None => Err(End::Abort("access to freed memory".into())),
            Some(o) => { if off + n as usize > o.data.len() { return Err(End::Abort(format!("access of {} bytes at offset {} of an object of {} bytes", n, off, o.data.len()))); } if write && o.ro { return Err(End::Abort("write to a constant".into())); } Ok((id - 1, off)) }
        }
    }
    fn byte(&mut self, o: &Obj, off: usize) -> V {
        if let Some(&(e, k)) = o.sym.get(&(off as u32)) { let x = self.ar.extract(e, k as u16 * 8 + 7, k as u16 * 8); self.val(x) } else { V::C(o.data[off] as u128) }
    }
    fn load_int(&mut self, st: &State, a: u64, bytes: u64) -> Res<V> {
        let (id, off) = self.locate(st, a, bytes, false)?;
        let o = st.mem[id].as_ref().unwrap().clone();
        let n = bytes as usize;
        if o.sym.is_empty() || (0..n).all(|i| !o.sym.contains_key(&((off + i) as u32))) {
            let mut v = 0u128;
            for i in (0..n).rev() { v = (v << 8) | o.data[off + i] as u128; }
            return Ok(V::C(v));
        }
        if let Some(&(e, 0)) = o.sym.get(&(off as u32)) {
            if self.ar.w(e) as usize == n * 8 && (1..n).all(|i| o.sym.get(&((off + i) as u32)) == Some(&(e, i as u8))) { return Ok(V::S(e)); }
        }
        let mut acc = self.byte(&o, off);
        for i in 1..n { let b = self.byte(&o, off + i); acc = self.concat(&b, 8, &acc, 8 * i as u16); }
        Ok(acc)
    }
    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> Res<V> {
        match ty {
            Ty::Int(w) => { let n = (*w as u64 + 7) / 8; let v = self.load_int(st, a, n)?; Ok(if n * 8 != *w as u64 { self.trunc(&v, *w) } else { v }) }
            Ty::Ptr => self.load_int(st, a, 8),
            Ty::Vec(n, t) if **t == Ty::Int(1) => { let b = (*n + 7) / 8; let v = self.load_int(st, a, b)?; let v = self.trunc(&v, *n as u16); Ok(self.from_bits(ty, &v, *n as u16).0) }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => { let mut v = vec![]; for i in 0..ty.count() { v.push(self.load(st, a + ty.offset(i), ty.elem(i))?); } Ok(V::A(Rc::new(v))) }
            _ => Err(End::Error(format!("load of {:?}", ty))),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> Res<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let w = ty.bits();
                let n = (w as u64 + 7) / 8;
                let (id, off) = self.locate(st, a, n, true)?;
                let v = if n * 8 != w as u64 { self.zext(v, n as u16 * 8) } else { v.clone() };
                let o = Rc::make_mut(st.mem[id].as_mut().unwrap());
                match v {
                    V::C(k) => for i in 0..n as usize { o.data[off + i] = (k >> (8 * i)) as u8; if !o.sym.is_empty() { o.sym.remove(&((off + i) as u32)); } },
                    V::S(e) => for i in 0..n as usize { o.sym.insert((off + i) as u32, (e, i as u8)); },
                    V::A(_) => return Err(End::Error("store".into())),
                }
                Ok(())
            }
            Ty::Vec(n, t) if **t == Ty::Int(1) => { let (b, w) = self.to_bits(ty, v); let t = Ty::Int(w); let _ = n; self.store(st, a, &t, &b) }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => { if let V::A(x) = v { for i in 0..x.len() { self.store(st, a + ty.offset(i), ty.elem(i), &x[i])?; } Ok(()) } else { Err(End::Error("store".into())) } }
            _ => Err(End::Error(format!("store of {:?}", ty))),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Res<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = self.locate(st, s, n, false)?;
        let (di, dof) = self.locate(st, d, n, true)?;
        let src = st.mem[si].as_ref().unwrap().clone();
        let o = Rc::make_mut(st.mem[di].as_mut().unwrap());
        o.data[dof..dof + n as usize].copy_from_slice(&src.data[so..so + n as usize]);
        if !o.sym.is_empty() { for i in 0..n as u32 { o.sym.remove(&(dof as u32 + i)); } }
        if !src.sym.is_empty() { for i in 0..n as u32 { if let Some(&x) = src.sym.get(&(so as u32 + i)) { o.sym.insert(dof as u32 + i, x); } } }
        Ok(())
    }
    fn free(&mut self, st: &mut State, a: u64) -> Res<()> {
        if a == 0 { return Ok(()); }
        let id = (a >> 32) as usize;
        if id == 0 || id > st.mem.len() || a & 0xffff_ffff != 0 || st.mem[id - 1].is_none() { return Err(End::Abort(format!("free of {:#x}", a))); }
        st.mem[id - 1] = None;
        while st.mem.len() > self.m.globals.len() && st.mem.last().map_or(false, |o| o.is_none()) { st.mem.pop(); }
        Ok(())
    }
    /// 0 or 1 as a 32-bit result: do the two areas differ?
    fn bcmp(&mut self, st: &State, a: u64, b: u64, n: u64, sign: bool) -> Res<V> {
        if n == 0 { return Ok(V::C(0)); }
        let (ai, ao) = self.locate(st, a, n, false)?;
        let (bi, bo) = self.locate(st, b, n, false)?;
        let (x, y) = (st.mem[ai].as_ref().unwrap().clone(), st.mem[bi].as_ref().unwrap().clone());
        let mut acc = V::C(0);
        for i in (0..n as usize).rev() {
            let (p, q) = (self.byte(&x, ao + i), self.byte(&y, bo + i));
            let eq = self.bin(Op::Eq, 8, &p, &q);
            let lt = self.bin(Op::Ult, 8, &p, &q);
            let d = if sign { self.ite(&lt, 32, &V::C(mask(32)), &V::C(1)) } else { V::C(1) };
            acc = self.ite(&eq, 32, &acc, &d);
        }
        Ok(acc)
    }

    // ---- control ----------------------------------------------------------------------------
    fn set(st: &mut State, d: u32, v: V) { let f = st.frames.last_mut().unwrap(); f.regs[d as usize] = v; }
    fn jump(&mut self, st: &mut State, to: u32) -> Res<()> {
        let (f, from) = { let fr = st.frames.last().unwrap(); (fr.f.clone(), fr.blk) };
        let b = &f.blocks[to as usize];
        let mut vals = vec![];
        for i in &b.insts {
            if let Inst::Phi { d, inc, .. } = i {
                let v = inc.iter().find(|x| x.1 == from).ok_or(End::Error("phi".into()))?;
                vals.push((*d, Self::op(st, &v.0)));
            } else { break; }
        }
        let n = vals.len();
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals { fr.regs[d as usize] = v; }
        fr.prev = from; fr.blk = to; fr.ip = n;
        let c = &mut self.covered[f.id];
        if c.len() < f.blocks.len() { c.resize(f.blocks.len(), false); }
        c[to as usize] = true;
        Ok(())
    }
    fn pop(&mut self, st: &mut State) -> Frame {
        let fr = st.frames.pop().unwrap();
        for &a in &fr.allocas { st.mem[a as usize] = None; }
        while st.mem.len() > self.m.globals.len() && st.mem.last().map_or(false, |o| o.is_none()) { st.mem.pop(); }
        fr
    }
    fn unwind(&mut self, st: &mut State) -> Res<Ctl> {
        loop {
            let fr = self.pop(st);
            if st.frames.is_empty() { return Ok(Ctl::End(End::Panic(st.panic_at.clone()))); }
            if fr.catch {
                if let Some(d) = fr.dest { Self::set(st, d, V::C(1)); }
                return self.after_call(st, fr.inv);
            }
            if let Some((_, u)) = fr.inv { self.jump(st, u)?; return Ok(Ctl::Jumped); }
        }
    }
    fn after_call(&mut self, st: &mut State, inv: Option<(u32, u32)>) -> Res<Ctl> {
        match inv { Some((n, _)) => { self.jump(st, n)?; Ok(Ctl::Jumped) } None => { st.frames.last_mut().unwrap().ip += 1; Ok(Ctl::Jumped) } }
    }
    fn location(&mut self, st: &State, args: &[V]) -> String {
        for a in args.iter().rev() {
            if let V::C(p) = a {
                let p = *p as u64;
                if let (Ok(V::C(f)), Ok(V::C(n)), Ok(V::C(l))) = (self.load_int(st, p, 8), self.load_int(st, p + 8, 8), self.load_int(st, p + 16, 4)) {
                    if n < 300 && l < 1_000_000 {
                        let s: Option<Vec<u8>> = (0..n as u64).map(|i| match self.load_int(st, f as u64 + i, 1) { Ok(V::C(c)) => Some(c as u8), _ => None }).collect();
                        if let Some(s) = s { if let Ok(s) = String::from_utf8(s) { if s.contains(".rs") { return format!("{}:{}", s, l); } } }
                    }
                }
            }
        }
        String::new()
    }
    fn text(&mut self, st: &State, p: u64, n: u64) -> String {
        (0..n).map(|i| match self.load_int(st, p + i, 1) { Ok(V::C(c)) => c as u8 as char, _ => '?' }).collect()
    }
    fn finding(&mut self, kind: &'static str, label: String, model: Vec<u128>) {
        if self.findings.iter().filter(|f| f.case == self.case).count() >= 3 || self.findings.iter().any(|f| f.case == self.case && f.label == label) { return; }
        self.findings.push(Finding { case: self.case, label, model, kind });
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, rty: &Ty, f: &Callee, args: &[(Ty, Opd)], inv: Option<(u32, u32)>) -> Res<Ctl> {
        let id = match f {
            Callee::Fn(n) => *self.m.fn_by_name.get(n).ok_or(End::Error(format!("no {}", n)))?,
            Callee::Ind(o) => { let v = Self::op(st, o); let a = self.concrete(st, &v)? as u64; if a < FUNC_BASE || (a - FUNC_BASE) / 16 >= self.m.fns.len() as u64 { return Err(End::Abort(format!("call of {:#x}", a))); } ((a - FUNC_BASE) / 16) as usize }
            Callee::Asm => { if let Some(d) = d { if *rty != Ty::Void { let v = args.get(0).map(|a| Self::op(st, &a.1)).unwrap_or(V::C(0)); Self::set(st, d, v); } } return self.after_call(st, inv); }
        };
        let name = &self.m.fns[id].name;
        let k = match self.kinds.get(&id) { Some(k) => *k, None => { let k = kind_of(name, true); self.kinds.insert(id, k); k } };
        let a: Vec<V> = args.iter().map(|x| Self::op(st, &x.1)).collect();
        let mut ret = V::C(0);
        match k {
            Kind::Normal => {
                let fun = self.m.func(id).map_err(|e| End::Error(format!("call of {}: {}", name, e)))?;
                if st.frames.len() > 400 { return Ok(Ctl::End(End::Abort("stack overflow".into()))); }
                let mut regs = vec![V::C(0); fun.nregs as usize];
                for (i, v) in a.into_iter().enumerate() { if i < fun.params.len() { regs[fun.params[i] as usize] = v; } }
                let c = &mut self.covered[id];
                if c.len() < fun.blocks.len() { c.resize(fun.blocks.len(), false); }
                c[0] = true;
                st.frames.push(Frame { f: fun, regs, blk: 0, prev: 0, ip: 0, dest: d, inv, allocas: vec![], catch: false });
                return Ok(Ctl::Jumped);
            }
            Kind::SxCatch => {
                let p = self.concrete(st, &a[0])? as u64;
                if p < FUNC_BASE { return Err(End::Error("sx_catch".into())); }
                let id = ((p - FUNC_BASE) / 16) as usize;
                let fun = self.m.func(id).map_err(End::Error)?;
                let mut regs = vec![V::C(0); fun.nregs as usize];
                regs[fun.params[0] as usize] = a[1].clone();
                let c = &mut self.covered[id];
                if c.len() < fun.blocks.len() { c.resize(fun.blocks.len(), false); }
                c[0] = true;
                st.frames.push(Frame { f: fun, regs, blk: 0, prev: 0, ip: 0, dest: d, inv, allocas: vec![], catch: true });
                return Ok(Ctl::Jumped);
            }
            Kind::Panic => { let l = self.location(st, &a); st.panic_at = format!("panic at {}", if l.is_empty() { name.as_str() } else { &l }); return self.unwind(st); }
            Kind::Abort => return Ok(Ctl::End(End::Abort(format!("abort: {}", name)))),
            Kind::Alloc | Kind::AllocZ | Kind::Malloc => { let n = self.concrete(st, &a[0])? as u64; ret = V::C(self.alloc(st, n, k == Kind::AllocZ)? as u128); }
            Kind::Calloc => { let n = self.concrete(st, &a[0])? as u64; let m = self.concrete(st, &a[1])? as u64; ret = V::C(self.alloc(st, n * m, true)? as u128); }
            Kind::Realloc | Kind::CRealloc => {
                let p = self.concrete(st, &a[0])? as u64;
                let n = self.concrete(st, &a[if k == Kind::Realloc { 3 } else { 1 }])? as u64;
                let old = if p == 0 { 0 } else { let (i, _) = self.locate(st, p, 0, false)?; st.mem[i].as_ref().unwrap().data.len() as u64 };
                let q = self.alloc(st, n, false)?;
                self.copy(st, q, p, old.min(n))?;
                if p != 0 { self.free(st, p)?; }
                ret = V::C(q as u128);
            }
            Kind::Dealloc | Kind::Free => { let p = self.concrete(st, &a[0])? as u64; self.free(st, p)?; }
            Kind::Nop => {}
            Kind::IsPanicking => ret = V::C(1),
            Kind::RandKeys => ret = V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)])),
            Kind::SxAny => {
                let w = self.concrete(st, &a[0])? as u16;
                let i = st.widths.len() as u32;
                st.widths.push(w);
                if st.model.len() < st.widths.len() { st.model.push(0); }
                let i = i as usize;
                st.model[i] &= mask(w);
                let e = self.ar.var(i as u32, w);
                let e = self.ar.zext(e, 64);
                self.stats.max_vars = self.stats.max_vars.max(st.widths.len());
                ret = V::S(e);
            }
            Kind::SxAssume => {
                let c = self.trunc(&a[0], 1);
                match c {
                    V::C(0) => return Ok(Ctl::End(End::Assumed)),
                    V::C(_) => {}
                    V::S(e) => match self.settled(st, e) {
                        Some(true) => {}
                        Some(false) => return Ok(Ctl::End(End::Assumed)),
                        None => {
                            if self.ar.eval(e, &st.model) == 0 {
                                match self.sat(st, e)? { Some(m) => st.model = m, None => return Ok(Ctl::End(End::Assumed)) }
                            }
                            self.assume(st, e, true);
                        }
                    },
                    _ => panic!(),
                }
            }
            Kind::SxCheck => {
                let c = self.trunc(&a[0], 1);
                let (p, n) = (self.concrete(st, &a[1])? as u64, self.concrete(st, &a[2])? as u64);
                match c {
                    V::C(0) => { let l = self.text(st, p, n); let m = st.model.clone(); self.finding("check", l, m); return Ok(Ctl::End(End::Assumed)); }
                    V::C(_) => self.stats.checks_concrete += 1,
                    V::S(e) => match self.settled(st, e) {
                        Some(true) => self.stats.checks_concrete += 1,
                        Some(false) => { let l = self.text(st, p, n); let m = st.model.clone(); self.finding("check", l, m); return Ok(Ctl::End(End::Assumed)); }
                        None => {
                            if st.decs.len() >= self.prefix.len() {
                                self.stats.obligations += 1;
                                let ne = self.ar.not(e);
                                if let Some(m) = self.sat(st, ne)? { let l = self.text(st, p, n); self.finding("check", l, m); }
                            }
                            if self.ar.eval(e, &st.model) == 0 { match self.sat(st, e)? { Some(m) => st.model = m, None => return Ok(Ctl::End(End::Assumed)) } }
                            // what was checked may be used from here on
                            self.assume(st, e, true);
                        }
                    },
                    _ => panic!(),
                }
            }
            Kind::SxNote => { st.trace.push(a[0].clone()); }
            Kind::SxPin => { ret = V::C(self.concrete(st, &a[0])?); }
            Kind::Memcpy | Kind::Memset => { self.mem_op(st, k == Kind::Memset, &a)?; ret = a[0].clone(); }
            Kind::Bcmp | Kind::Memcmp => { let (x, y, n) = (self.concrete(st, &a[0])? as u64, self.concrete(st, &a[1])? as u64, self.concrete(st, &a[2])? as u64); ret = self.bcmp(st, x, y, n, k == Kind::Memcmp)?; }
            Kind::Strlen => { let p = self.concrete(st, &a[0])? as u64; let mut n = 0; loop { let b = self.load_int(st, p + n, 1)?; if self.concrete(st, &b)? == 0 { break; } n += 1; } ret = V::C(n as u128); }
            Kind::Intrinsic => { match self.intrinsic(st, name, rty, args, &a)? { Some(v) => ret = v, None => return Ok(Ctl::End(End::Abort(format!("{}", name)))) } }
        }
        if let Some(d) = d { Self::set(st, d, ret); }
        self.after_call(st, inv)
    }
    fn mem_op(&mut self, st: &mut State, set: bool, a: &[V]) -> Res<()> {
        let n = self.concrete(st, &a[2])? as u64;
        if n == 0 { return Ok(()); }
        let d = self.concrete(st, &a[0])? as u64;
        if set {
            let b = if let V::S(e) = a[1] { let e = self.ar.extract(e, 7, 0); self.val(e) } else { a[1].clone() };
            self.locate(st, d, n, true)?;
            for i in 0..n { self.store(st, d + i, &Ty::Int(8), &b)?; }
            Ok(())
        } else { let s = self.concrete(st, &a[1])? as u64; self.copy(st, d, s, n) }
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, rty: &Ty, args: &[(Ty, Opd)], a: &[V]) -> Res<Option<V>> {
        let n = &name[5..];
        let st0 = |s: &str| n.starts_with(s);
        if let Ty::Vec(..) = rty { if !a.is_empty() && a.iter().all(|x| matches!(x, V::A(_) | V::C(_))) {
            let cnt = rty.count();
            let mut out = vec![];
            for i in 0..cnt {
                let ai: Vec<V> = a.iter().map(|x| if let V::A(v) = x { v[i].clone() } else { x.clone() }).collect();
                let ti: Vec<(Ty, Opd)> = args.iter().map(|x| (if let Ty::Vec(_, t) = &x.0 { (**t).clone() } else { x.0.clone() }, x.1.clone())).collect();
                match self.intrinsic(st, name, rty.elem(0), &ti, &ai)? { Some(v) => out.push(v), None => return Ok(None) }
            }
            return Ok(Some(V::A(Rc::new(out))));
        } }
        if st0("lifetime") || st0("assume") || st0("x86.sse2.pause") || st0("donothing") || st0("prefetch") || st0("experimental.noalias") || st0("invariant") || st0("sideeffect") { return Ok(Some(V::C(0))); }
        if st0("trap") || st0("ubsantrap") || st0("debugtrap") { return Ok(None); }
        if st0("memcpy") || st0("memmove") { self.mem_op(st, false, a)?; return Ok(Some(V::C(0))); }
        if st0("memset") { self.mem_op(st, true, a)?; return Ok(Some(V::C(0))); }
        if st0("threadlocal.address") || st0("expect") || st0("launder") || st0("strip") || st0("ssa.copy") { return Ok(Some(a[0].clone())); }
        if st0("is.constant") { return Ok(Some(V::C(0))); }
        if st0("objectsize") { return Ok(Some(V::C(mask(rty.bits())))); }
        if st0("vector.reduce.") {
            if let (V::A(x), Ty::Vec(_, t)) = (&a[0], &args[0].0) {
                let w = t.bits();
                let op = if n.contains(".or.") { Op::Or } else if n.contains(".and.") { Op::And } else if n.contains(".add.") { Op::Add } else if n.contains(".xor.") { Op::Xor } else { return Err(End::Error(format!("intrinsic {}", name))) };
                let mut acc = x[0].clone();
                for i in 1..x.len() { acc = self.bin(op, w, &acc, &x[i]); }
                return Ok(Some(acc));
            }
        }
        let w = match args.get(0).map(|x| &x.0) { Some(Ty::Int(w)) => *w, Some(Ty::Ptr) => 64, _ => return Err(End::Error(format!("intrinsic {}", name))) };
        let wide = |s: &mut Self, v: &V, sg: bool| -> V { if sg { s.cast(Cast::Sext, &Ty::Int(w), &Ty::Int(2 * w), v) } else { s.zext(v, 2 * w) } };
        if n.contains(".with.overflow") {
            if w > 64 { return Err(End::Error(format!("intrinsic {}", name))); }
            let sg = n.starts_with('s');
            let op = match &n[1..4] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
            let r = self.bin(op, w, &a[0], &a[1]);
            let o = if !sg && op == Op::Add { self.bin(Op::Ult, w, &r, &a[0]) } else if !sg && op == Op::Sub { self.bin(Op::Ult, w, &a[0], &a[1]) } else {
                let (x, y) = (wide(self, &a[0], sg), wide(self, &a[1], sg));
                let f = self.bin(op, 2 * w, &x, &y);
                let back = wide(self, &r, sg);
                let e = self.bin(Op::Eq, 2 * w, &f, &back);
                self.not1(&e)
            };
            return Ok(Some(V::A(Rc::new(vec![r, o]))));
        }
        let pick = |s: &mut Self, op: Op, first: bool| { let c = s.bin(op, w, &a[0], &a[1]); if first { s.ite(&c, w, &a[0], &a[1]) } else { s.ite(&c, w, &a[1], &a[0]) } };
        if st0("umax") { return Ok(Some(pick(self, Op::Ult, false))); }
        if st0("umin") { return Ok(Some(pick(self, Op::Ult, true))); }
        if st0("smax") { return Ok(Some(pick(self, Op::Slt, false))); }
        if st0("smin") { return Ok(Some(pick(self, Op::Slt, true))); }
        if st0("usub.sat") { let c = self.bin(Op::Ult, w, &a[0], &a[1]); let d = self.bin(Op::Sub, w, &a[0], &a[1]); return Ok(Some(self.ite(&c, w, &V::C(0), &d))); }
        if st0("uadd.sat") { let s = self.bin(Op::Add, w, &a[0], &a[1]); let c = self.bin(Op::Ult, w, &s, &a[0]); return Ok(Some(self.ite(&c, w, &V::C(mask(w)), &s))); }
        if st0("abs") { let c = self.bin(Op::Slt, w, &a[0], &V::C(0)); let d = self.bin(Op::Sub, w, &V::C(0), &a[0]); return Ok(Some(self.ite(&c, w, &d, &a[0]))); }
        if st0("ucmp") || st0("scmp") {
            let rw = rty.bits();
            let op = if st0("ucmp") { Op::Ult } else { Op::Slt };
            let (l, g) = (self.bin(op, w, &a[0], &a[1]), self.bin(op, w, &a[1], &a[0]));
            let x = self.ite(&g, rw, &V::C(1), &V::C(0));
            return Ok(Some(self.ite(&l, rw, &V::C(mask(rw)), &x)));
        }
        if st0("ctpop") || st0("ctlz") || st0("cttz") || st0("bitreverse") || st0("bswap") {
            if let V::C(k) = a[0] {
                let k = k & mask(w);
                let r = if st0("ctpop") { k.count_ones() as u128 } else if st0("ctlz") { (k.leading_zeros() - (128 - w as u32)) as u128 } else if st0("cttz") { if k == 0 { w as u128 } else { k.trailing_zeros() as u128 } } else if st0("bswap") { k.swap_bytes() >> (128 - w) } else { k.reverse_bits() >> (128 - w) };
                return Ok(Some(V::C(r)));
            }
            let e = self.ex(&a[0], w);
            let bit = |s: &mut Self, i: u16| { let b = s.ar.extract(e, i, i); s.val(b) };
            let mut acc;
            if st0("ctpop") { acc = V::C(0); for i in 0..w { let b = bit(self, i); let z = self.zext(&b, w); acc = self.bin(Op::Add, w, &acc, &z); } }
            else if st0("cttz") { acc = V::C(w as u128); for i in (0..w).rev() { let b = bit(self, i); acc = self.ite(&b, w, &V::C(i as u128), &acc); } }
            else if st0("ctlz") { acc = V::C(w as u128); for i in 0..w { let b = bit(self, i); acc = self.ite(&b, w, &V::C((w - 1 - i) as u128), &acc); } }
            else {
                let step = if st0("bswap") { 8 } else { 1 };
                acc = { let x = self.ar.extract(e, step - 1, 0); self.val(x) };
                let mut lo = step;
                while lo < w { let x = self.ar.extract(e, lo + step - 1, lo); let x = self.val(x); acc = self.concat(&acc, lo, &x, step); lo += step; }
            }
            return Ok(Some(acc));
        }
        if st0("fshl") || st0("fshr") {
            let s = self.bin(Op::URem, w, &a[2], &V::C(w as u128));
            let inv = self.bin(Op::Sub, w, &V::C(w as u128), &s);
            let (l, r) = if st0("fshl") { (self.bin(Op::Shl, w, &a[0], &s), self.bin(Op::LShr, w, &a[1], &inv)) } else { (self.bin(Op::Shl, w, &a[0], &inv), self.bin(Op::LShr, w, &a[1], &s)) };
            return Ok(Some(self.bin(Op::Or, w, &l, &r)));
        }
        if st0("load.relative") { }
        Err(End::Error(format!("intrinsic {}", name)))
    }

    fn step(&mut self, st: &mut State) -> Res<Ctl> {
        let f = st.frames.last().unwrap().f.clone();
        let (blk, ip) = { let fr = st.frames.last().unwrap(); (fr.blk as usize, fr.ip) };
        let ins = &f.blocks[blk].insts[ip];
        match ins {
            Inst::Alloca { d, size, n } => {
                let k = match n { Some(o) => { let v = Self::op(st, o); self.concrete(st, &v)? as u64 } None => 1 };
                let a = self.alloc(st, size * k, false)?;
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(((a >> 32) - 1) as u32);
                fr.regs[*d as usize] = V::C(a as u128);
            }
            Inst::Load { d, ty, p } => { let v = Self::op(st, p); let a = self.concrete(st, &v)? as u64; let r = self.load(st, a, ty)?; Self::set(st, *d, r); }
            Inst::Store { ty, v, p } => { let pv = Self::op(st, p); let a = self.concrete(st, &pv)? as u64; let x = Self::op(st, v); self.store(st, a, ty, &x)?; }
            Inst::Gep { d, ty, p, idx } => {
                let mut acc = Self::op(st, p);
                let mut cur = ty.clone();
                for (j, (w, o)) in idx.iter().enumerate() {
                    let v = Self::op(st, o);
                    let sz;
                    if j == 0 { sz = cur.size(); } else {
                        if let Ty::Struct(..) = cur { let k = match v { V::C(k) => k as usize, _ => return Err(End::Error("gep".into())) }; let o = cur.offset(k); acc = self.bin(Op::Add, 64, &acc, &V::C(o as u128)); cur = cur.elem(k).clone(); continue; }
                        cur = cur.elem(0).clone(); sz = cur.size();
                    }
                    let v64 = if *w < 64 { self.cast(Cast::Sext, &Ty::Int(*w), &Ty::Int(64), &v) } else { v };
                    let o = self.bin(Op::Mul, 64, &v64, &V::C(sz as u128));
                    acc = self.bin(Op::Add, 64, &acc, &o);
                }
                Self::set(st, *d, acc);
            }
            Inst::Bin { d, op, ty, a, b } => {
                let (x, y) = (Self::op(st, a), Self::op(st, b));
                let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor };
                let r = match (ty, &x, &y) { (Ty::Vec(_, t), V::A(p), V::A(q)) => { let v = (0..p.len()).map(|i| self.bin(o, t.bits(), &p[i], &q[i])).collect(); V::A(Rc::new(v)) } _ => self.bin(o, ty.bits(), &x, &y) };
                Self::set(st, *d, r);
            }
            Inst::Icmp { d, p, ty, a, b } => {
                let (x, y) = (Self::op(st, a), Self::op(st, b));
                let r = match (ty, &x, &y) { (Ty::Vec(_, t), V::A(m), V::A(q)) => { let v = (0..m.len()).map(|i| self.icmp(*p, t.bits(), &m[i], &q[i])).collect(); V::A(Rc::new(v)) } _ => self.icmp(*p, ty.bits(), &x, &y) };
                Self::set(st, *d, r);
            }
            Inst::Cast { d, c, from, to, v } => { let x = Self::op(st, v); let r = self.cast(*c, from, to, &x); Self::set(st, *d, r); }
            Inst::Freeze { d, v } => { let x = Self::op(st, v); Self::set(st, *d, x); }
            Inst::Phi { .. } => return Err(End::Error("phi".into())),
            Inst::Select { d, cty: _, c, ty, a, b } => { let (c, x, y) = (Self::op(st, c), Self::op(st, a), Self::op(st, b)); let r = self.select(&c, ty, &x, &y); Self::set(st, *d, r); }
            Inst::Br { t } => { self.jump(st, *t)?; return Ok(Ctl::Jumped); }
            Inst::CondBr { c, t, f } => { let v = Self::op(st, c); let b = self.truth(st, &v)?; self.jump(st, if b { *t } else { *f })?; return Ok(Ctl::Jumped); }
            Inst::Switch { w, v, dflt, cases } => {
                let x = Self::op(st, v);
                let to = match &x {
                    V::C(k) => cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*dflt),
                    V::S(e) => {
                        // one condition per destination
                        let mut fresh = true;
                        loop {
                            let cur = if fresh { self.ar.eval(*e, &st.model) } else { self.attempt(st, *e) };
                            let to = cases.iter().find(|c| c.0 == cur).map(|c| c.1).unwrap_or(*dflt);
                            let mut cond = self.ar.k(0, 1);
                            for c in cases { if (c.1 == to) != (to == *dflt) { let kk = self.ar.k(c.0, *w); let q = self.ar.bin(Op::Eq, *e, kk); cond = self.ar.bin(Op::Or, cond, q); } }
                            if to == *dflt { cond = self.ar.not(cond); }
                            if fresh { if self.settled(st, cond) == Some(true) { break to; } fresh = false; continue; }
                            if self.decide_on(st, cond, cur)? { break to; }
                            fresh = true;
                        }
                    }
                    _ => return Err(End::Error("switch".into())),
                };
                self.jump(st, to)?;
                return Ok(Ctl::Jumped);
            }
            Inst::Call { d, rty, f, args, inv } => return self.call(st, *d, rty, f, args, *inv),
            Inst::LandingPad { d } => { st.exn += 1; Self::set(st, *d, V::A(Rc::new(vec![V::C(0x10), V::C(1)]))); }
            Inst::Resume => return self.unwind(st),
            Inst::Ret { v } => {
                let r = v.as_ref().map(|(_, o)| Self::op(st, o));
                let fr = self.pop(st);
                if st.frames.is_empty() { return Ok(Ctl::End(End::Done)); }
                if let Some(d) = fr.dest { Self::set(st, d, if fr.catch { V::C(0) } else { r.unwrap_or(V::C(0)) }); }
                return self.after_call(st, fr.inv);
            }
            Inst::Unreachable => return Err(End::Abort("unreachable code reached".into())),
            Inst::Extract { d, v, idx, .. } => { let mut x = Self::op(st, v); for &i in idx { x = if let V::A(a) = &x { a[i].clone() } else { return Err(End::Error("extractvalue".into())) }; } Self::set(st, *d, x); }
            Inst::Insert { d, v, e, idx, .. } => {
                fn ins(x: &V, e: &V, idx: &[usize]) -> V { if idx.is_empty() { return e.clone(); } if let V::A(a) = x { let mut n = (**a).clone(); n[idx[0]] = ins(&n[idx[0]], e, &idx[1..]); V::A(Rc::new(n)) } else { x.clone() } }
                let (x, e) = (Self::op(st, v), Self::op(st, e));
                let r = ins(&x, &e, idx);
                Self::set(st, *d, r);
            }
            Inst::ExtractEl { d, v, i } => { let x = Self::op(st, v); let k = Self::op(st, i); let k = self.concrete(st, &k)? as usize; let r = if let V::A(a) = &x { a[k].clone() } else { return Err(End::Error("extractelement".into())) }; Self::set(st, *d, r); }
            Inst::InsertEl { d, v, e, i, .. } => { let x = Self::op(st, v); let k = Self::op(st, i); let k = self.concrete(st, &k)? as usize; let e = Self::op(st, e); let r = if let V::A(a) = &x { let mut n = (**a).clone(); n[k] = e; V::A(Rc::new(n)) } else { return Err(End::Error("insertelement".into())) }; Self::set(st, *d, r); }
            Inst::Shuffle { d, ty, a, b, m } => {
                let (x, y) = (Self::op(st, a), Self::op(st, b));
                let n = ty.count();
                let r = match (&x, &y, m) { (V::A(p), V::A(q), K::Agg(ks)) => { let v = ks.iter().map(|k| { let i = if let K::Int(i) = k { *i as usize } else { 0 }; if i < n { p[i].clone() } else if i - n < q.len() { q[i - n].clone() } else { V::C(0) } }).collect(); V::A(Rc::new(v)) } _ => return Err(End::Error("shufflevector".into())) };
                Self::set(st, *d, r);
            }
            Inst::Rmw { d, op, ty, p, v } => {
                let pv = Self::op(st, p); let a = self.concrete(st, &pv)? as u64; let x = Self::op(st, v);
                let old = self.load(st, a, ty)?; let w = ty.bits();
                let new = match op.as_str() { "xchg" => x, "add" => self.bin(Op::Add, w, &old, &x), "sub" => self.bin(Op::Sub, w, &old, &x), "and" => self.bin(Op::And, w, &old, &x), "or" => self.bin(Op::Or, w, &old, &x), "xor" => self.bin(Op::Xor, w, &old, &x), _ => return Err(End::Error(format!("atomicrmw {}", op))) };
                self.store(st, a, ty, &new)?; Self::set(st, *d, old);
            }
            Inst::CmpXchg { d, ty, p, c, v } => {
                let pv = Self::op(st, p); let a = self.concrete(st, &pv)? as u64; let (c, x) = (Self::op(st, c), Self::op(st, v));
                let old = self.load(st, a, ty)?;
                let e = self.bin(Op::Eq, ty.bits(), &old, &c);
                let b = self.truth(st, &e)?;
                if b { self.store(st, a, ty, &x)?; }
                Self::set(st, *d, V::A(Rc::new(vec![old, V::C(b as u128)])));
            }
            Inst::Nop => {}
            Inst::Bad(s) => return Err(End::Error(format!("instruction {}", s))),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(Ctl::Next)
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> V {
        let (op, sw, neg) = match p { Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true), Pred::Ult => (Op::Ult, false, false), Pred::Ule => (Op::Ule, false, false), Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ule, true, false), Pred::Slt => (Op::Slt, false, false), Pred::Sle => (Op::Sle, false, false), Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Sle, true, false) };
        let r = if sw { self.bin(op, w, b, a) } else { self.bin(op, w, a, b) };
        if neg { self.not1(&r) } else { r }
    }
    /// runs one state to its end
    pub fn run(&mut self, mut st: State) -> End {
        loop {
            st.steps += 1;
            self.stats.insts += 1;
            if st.steps > self.step_limit { return self.finish(st, End::Hang); }
            match self.step(&mut st) {
                Ok(Ctl::Next) | Ok(Ctl::Jumped) => {}
                Ok(Ctl::End(e)) | Err(e) => return self.finish(st, e),
            }
        }
    }
    fn finish(&mut self, st: State, e: End) -> End {
        self.stats.max_depth = self.stats.max_depth.max(st.decs.len() as u64);
        let m: Vec<u128> = st.model[..st.widths.len().min(st.model.len())].to_vec();
        for k in 0..st.pc.len() { if self.ar.eval(st.pc[k], &st.model) != 1 { self.unknowns.push(format!("a path's own values do not follow it (case {}, values {:?})", self.case, m)); break; } }
        match &e {
            End::Assumed => { self.stats.assumed += 1; }
            End::Done => {
                self.stats.paths += 1;
                let trace = st.trace.iter().map(|v| match v { V::C(k) => *k, V::S(x) => self.ar.eval(*x, &st.model), _ => 0 }).collect();
                self.leaves.push(Leaf { case: self.case, model: m, trace, end: "ok".into() });
            }
            End::Panic(l) => { self.stats.paths += 1; self.finding("panic", l.clone(), m); }
            End::Abort(l) => { self.stats.paths += 1; self.finding("abort", l.clone(), m); }
            End::Hang => { self.stats.paths += 1; self.finding("hang", "does not terminate".into(), m); }
            End::Error(s) => { let fr = st.frames.last().map(|f| f.f.name.clone()).unwrap_or_default(); self.unknowns.push(format!("{} (in {}, case {}, values {:?})", s, fr, self.case, m)); }
        }
        e
    }
}
