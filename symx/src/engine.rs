//! Path-forking symbolic execution of the real (generic) code.
//!
//! The library is generic over its symbol type, so it is instantiated with `Sym`, a symbolic
//! symbol.  Every comparison the code makes on symbols becomes a branch decision: when the path
//! condition leaves both outcomes open the path forks (by re-execution with a decision prefix).
//! Along one path everything else is concrete.  The feasibility of a branch is decided by an
//! incremental difference-bound matrix; everything it decided on a path is re-checked, together
//! with the property, by one SMT query per leaf (see `solver.rs`):
//!     path condition  AND  ( some pruned branch was feasible  OR  the property fails )   unsat?
use crate::expr::*;
use std::cell::Cell;
use std::cmp::Ordering;

const INF: i32 = 1 << 20;

/// Difference bounds: d[i][j] bounds x_i - x_j, index 0 is the constant zero.
#[derive(Clone)]
pub struct Dbm { n: usize, w: usize, d: Vec<i32> }
pub const MAXV: usize = 127;

impl Dbm {
    pub fn new() -> Dbm { let mut d = vec![INF; 16 * 16]; d[0] = 0; Dbm { n: 1, w: 16, d } }
    #[inline] fn at(&self, i: usize, j: usize) -> i32 { self.d[i * self.w + j] }
    #[inline] fn set(&mut self, i: usize, j: usize, v: i32) { self.d[i * self.w + j] = v }
    pub fn nvars(&self) -> usize { self.n - 1 }
    pub fn add_var(&mut self) -> u16 {
        let i = self.n;
        assert!(i <= MAXV, "too many symbolic variables");
        if i == self.w {
            let mut d = vec![INF; 4 * self.w * self.w];
            for r in 0..self.w { d[r * 2 * self.w..r * 2 * self.w + self.w].copy_from_slice(&self.d[r * self.w..(r + 1) * self.w]); }
            self.w *= 2;
            self.d = d;
        }
        self.n += 1;
        for j in 0..i {
            let zj = self.at(0, j);
            let jz = self.at(j, 0);
            self.set(i, j, DOM_MAX + zj);
            self.set(j, i, jz);
        }
        self.set(i, i, 0);
        (i - 1) as u16
    }
    fn ix(v: u16) -> usize { if v == NOVAR { 0 } else { v as usize + 1 } }
    /// Some(b) when the atom is implied true/false
    pub fn implied(&self, a: Atom) -> Option<bool> {
        let (x, y) = (Self::ix(a.x), Self::ix(a.y));
        if self.at(x, y) <= a.c { return Some(true); }
        if self.at(y, x) <= -a.c - 1 { return Some(false); }
        None
    }
    pub fn assert(&mut self, a: Atom) {
        let (x, y) = (Self::ix(a.x), Self::ix(a.y));
        if self.at(x, y) <= a.c { return; }
        for i in 0..self.n {
            let ix = self.at(i, x);
            if ix >= INF { continue; }
            for j in 0..self.n {
                let v = ix + a.c + self.at(y, j);
                if v < self.at(i, j) { self.set(i, j, v); }
            }
        }
    }
    /// A satisfying assignment: the least solution pushed up to somewhere strictly inside when possible
    pub fn model(&self) -> Vec<i32> {
        // x_i = -d[0][i] is the least solution of a closed, consistent DBM
        (1..self.n).map(|i| -self.at(0, i)).collect()
    }
}

pub struct Fork { pub atom: Atom, pub taken: bool, pub open: bool }

/// What became of one run: a leaf of the tree of decisions
pub struct Out { pub forks: Vec<(Atom, bool)>, pub pc: Vec<Atom>, pub require: Vec<(String, B)>, pub implied: Vec<Atom>, pub model: Vec<i32>, pub nv: usize, pub observed: u64, pub end: End, pub stage: bool }
#[derive(Clone, Debug)]
pub enum End { Done, Panic(String), Infeasible, Budget }
pub fn end_of(e: Box<dyn std::any::Any + Send>) -> End {
    if e.is::<Budget>() { return End::Budget; }
    if e.is::<Infeasible>() { return End::Infeasible; }
    if let Some(s) = e.downcast_ref::<&str>() { return End::Panic(s.to_string()); }
    if let Some(s) = e.downcast_ref::<String>() { return End::Panic(s.clone()); }
    End::Panic("panic".into())
}
/// Where a run tells the worker which decisions it is following, in case it never comes back
pub type Progress = std::sync::Arc<std::sync::Mutex<Vec<(Atom, bool)>>>;

pub struct Path {
    pub replay: Vec<bool>,          // decisions to follow first
    pub expect: Vec<(Atom, bool)>,  // the same with what they were about, to notice a run that goes another way
    pub diverged: bool,
    pub plain: bool,                // no local exploration of branches
    pub room: usize,                // how many branches to explore before giving the rest back
    pub outs: Vec<Out>,
    pub leftover: Vec<Vec<(Atom, bool)>>,
    pub progress: Option<Progress>,
    pub crumb: Option<Box<dyn Fn(&[(Atom, bool)])>>,
    pub pos: usize,
    pub forks: Vec<(Atom, bool)>,   // all forks on this path in order
    pub dbm: Dbm,
    pub assumed: Vec<Atom>,
    pub implied: std::collections::HashSet<Atom>, // atoms found to hold by the DBM (to be confirmed by the solver)
    pub require: Vec<(String, B)>,
    pub names: Vec<String>,
    pub observed: u64,
    pub ticks: u64,
    pub decisions: u64,
    pub max_ticks: u64,
}

pub struct Infeasible;
pub struct Budget;

thread_local! { pub static TRACE: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
thread_local! { pub static CUR: Cell<*mut Path> = const { Cell::new(std::ptr::null_mut()) }; }

pub fn with<R>(f: impl FnOnce(&mut Path) -> R) -> R {
    CUR.with(|c| {
        let p = c.get();
        assert!(!p.is_null(), "symbolic value used outside a path");
        unsafe { f(&mut *p) }
    })
}

impl Path {
    pub fn new(replay: Vec<bool>, max_ticks: u64) -> Path {
        Path { replay, expect: vec![], diverged: false, plain: true, room: 0, outs: vec![], leftover: vec![], progress: None, crumb: None, pos: 0, forks: vec![], dbm: Dbm::new(), assumed: vec![], implied: Default::default(), require: vec![], names: vec![], observed: 0xcbf29ce484222325, ticks: 0, decisions: 0, max_ticks }
    }
    #[inline] pub fn tick(&mut self) {
        self.ticks += 1;
        if self.ticks > self.max_ticks { std::panic::panic_any(Budget); }
    }
    pub fn decide(&mut self, a: Atom) -> bool {
        self.tick();
        if let Some(b) = a.konst() { return b; }
        self.decisions += 1;
        if let Some(b) = self.dbm.implied(a) {
            self.implied.insert(if b { a } else { a.neg() });
            return b;
        }
        let b = if self.pos < self.replay.len() { self.replay[self.pos] } else { true };
        if self.pos < self.expect.len() && self.expect[self.pos].0 != a { self.diverged = true; }
        self.pos += 1;
        self.forks.push((a, b));
        self.dbm.assert(if b { a } else { a.neg() });
        if self.replay_done() { self.trace(); }
        b
    }
    fn replay_done(&self) -> bool { self.pos >= self.replay.len() }
    pub fn trace(&self) {
        TRACE.with(|t| if let Some(f) = &*t.borrow() { let _ = std::fs::write(f, self.dbm.model().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); });
    }
    pub fn new_var(&mut self, name: String) -> Term {
        let v = self.dbm.add_var();
        self.names.push(name);
        if self.replay_done() { self.trace(); }
        Term { var: v, off: 0 }
    }
    pub fn assume(&mut self, a: Atom) {
        if let Some(b) = a.konst() { if !b { std::panic::panic_any(Infeasible) } return; }
        match self.dbm.implied(a) {
            Some(true) => return,
            Some(false) => { self.implied.insert(a.neg()); std::panic::panic_any(Infeasible) }
            None => { self.assumed.push(a); self.dbm.assert(a); }
        }
    }
    /// takes what happened since the stage began (everything, outside a branch)
    pub fn take_out(&mut self, end: End, stage: bool) -> Out {
        Out { forks: self.forks.clone(), pc: self.pc(), require: std::mem::take(&mut self.require), implied: std::mem::take(&mut self.implied).into_iter().collect(), model: self.dbm.model(), nv: self.names.len(), observed: self.observed, end, stage }
    }
    pub fn observe(&mut self, v: u64) { self.observed = (self.observed ^ v).wrapping_mul(0x100000001b3); }
    pub fn pc(&self) -> Vec<Atom> {
        self.assumed.iter().cloned().chain(self.forks.iter().map(|(a, b)| if *b { *a } else { a.neg() })).collect()
    }
}

/// A symbolic symbol
pub struct Sym(pub Term);

impl Clone for Sym { fn clone(&self) -> Sym { with(|p| p.tick()); Sym(self.0) } }
impl std::fmt::Debug for Sym { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }

fn lt(a: &Sym, b: &Sym) -> bool { with(|p| p.decide(Atom::lt(a.0, b.0))) }
fn le(a: &Sym, b: &Sym) -> bool { with(|p| p.decide(Atom::le(a.0, b.0))) }

impl PartialEq for Sym { fn eq(&self, o: &Sym) -> bool { le(self, o) && le(o, self) } }
impl Eq for Sym {}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &Sym) -> bool { lt(self, o) }
    fn le(&self, o: &Sym) -> bool { le(self, o) }
    fn gt(&self, o: &Sym) -> bool { lt(o, self) }
    fn ge(&self, o: &Sym) -> bool { le(o, self) }
}
impl Ord for Sym {
    fn cmp(&self, o: &Sym) -> Ordering {
        if lt(self, o) { Ordering::Less } else if lt(o, self) { Ordering::Greater } else { Ordering::Equal }
    }
}
impl concordance::Countable for Sym {
    // the semantics of u8 with overflow checks: a panic at the end of the domain
    fn next(&self) -> Sym {
        if !with(|p| p.decide(Atom::lt(self.0, Term::cst(DOM_MAX)))) { panic!("attempt to add with overflow"); }
        Sym(Term { var: self.0.var, off: self.0.off + 1 })
    }
    fn prev(&self) -> Sym {
        if !with(|p| p.decide(Atom::lt(Term::cst(0), self.0))) { panic!("attempt to subtract with overflow"); }
        Sym(Term { var: self.0.var, off: self.0.off - 1 })
    }
}
impl serde::Serialize for Sym {
    fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        s.serialize_u64(((self.0.var as u64) << 32) | (self.0.off as u32 as u64))
    }
}
impl<'de> serde::Deserialize<'de> for Sym {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Sym, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Sym;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("symbol") }
            fn visit_u64<E>(self, v: u64) -> Result<Sym, E> { Ok(Sym(Term { var: (v >> 32) as u16, off: v as u32 as i32 })) }
        }
        d.deserialize_u64(V)
    }
}

// ---------------------------------------------------------------------------------------------

pub trait Symbol: Clone + Ord + concordance::Countable + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned + 'static {
    fn term(&self) -> Term;
}
impl Symbol for Sym { fn term(&self) -> Term { self.0 } }
impl Symbol for u8 { fn term(&self) -> Term { Term::cst(*self as i32) } }

/// What a harness sees: symbolic while exploring, concrete (u8) while replaying
pub trait World {
    type S: Symbol;
    fn sym(&mut self, name: &str) -> Self::S;
    fn cst(&mut self, v: u8) -> Self::S;
    fn assume_le(&mut self, a: &Self::S, b: &Self::S);
    fn assume_lt(&mut self, a: &Self::S, b: &Self::S);
    fn require(&mut self, label: &str, b: B);
    fn observe(&mut self, v: u64);
    fn choose(&mut self, name: &str, n: usize) -> usize;
    fn note(&mut self, _s: impl FnOnce() -> String) {}
    /// a failure that is identified completely by `key`: a violation unless it is listed as a known finding
    fn known(&mut self, key: &str, example: impl FnOnce() -> String) {
        if listed(key) { seen(key, example) } else { self.require(key, B::f()) }
    }
    /// the last stage of a case: runs once per branch of its own decisions, what came before is kept.
    /// It must not change anything the closure holds.
    fn branch(&mut self, f: impl Fn(&mut Self)) where Self: Sized { f(self) }
    /// runs code that is allowed (or required) to panic; None when it panicked
    fn catch<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) => if e.is::<Budget>() || e.is::<Infeasible>() { std::panic::resume_unwind(e) } else { None },
        }
    }
}

static LISTED: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
pub static SEEN: std::sync::Mutex<std::collections::BTreeMap<String, (u64, String)>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
fn listed(key: &str) -> bool { LISTED.get_or_init(|| std::env::var("VERIF_KNOWN").unwrap_or_default().lines().map(|s| s.to_string()).collect()).iter().any(|k| k == key) }
fn seen(key: &str, example: impl FnOnce() -> String) {
    if crate::twin() { return; }
    let mut m = SEEN.lock().unwrap();
    let e = m.entry(key.to_string()).or_insert_with(|| (0, String::new()));
    if e.0 == 0 { e.1 = example(); }
    e.0 += 1;
}

pub struct SymWorld;
impl World for SymWorld {
    type S = Sym;
    fn sym(&mut self, name: &str) -> Sym { with(|p| Sym(p.new_var(name.to_string()))) }
    fn cst(&mut self, v: u8) -> Sym { Sym(Term::cst(v as i32)) }
    fn assume_le(&mut self, a: &Sym, b: &Sym) { with(|p| p.assume(Atom::le(a.0, b.0))) }
    fn assume_lt(&mut self, a: &Sym, b: &Sym) { with(|p| p.assume(Atom::lt(a.0, b.0))) }
    fn require(&mut self, label: &str, b: B) { if b.is() != Some(true) { with(|p| p.require.push((label.to_string(), b))) } else { with(|p| p.tick()) } }
    fn observe(&mut self, v: u64) { with(|p| p.observe(v)) }
    fn branch(&mut self, f: impl Fn(&mut Self)) {
        if with(|p| p.plain) { return f(self); }
        // what came before ends here, as a leaf of its own
        let (dbm, forks, assumed, names, observed, ticks, pos) = with(|p| {
            let out = p.take_out(End::Done, true);
            p.outs.push(out);
            (p.dbm.clone(), p.forks.clone(), p.assumed.clone(), p.names.clone(), p.observed, p.ticks, p.pos)
        });
        let mut first = with(|p| p.expect.clone());
        if first.len() < forks.len() { first = forks.clone(); }
        let mut stack = vec![first];
        let mut done = 0;
        while let Some(prefix) = stack.pop() {
            if done >= with(|p| p.room) { stack.push(prefix); break; }
            done += 1;
            with(|p| {
                p.dbm = dbm.clone(); p.forks = forks.clone(); p.assumed = assumed.clone(); p.names = names.clone();
                p.observed = observed; p.ticks = ticks; p.pos = pos;
                p.replay = prefix.iter().map(|x| x.1).collect();
                p.expect = prefix.clone();
                p.require.clear(); p.implied.clear();
                if let Some(g) = &p.progress { *g.lock().unwrap() = prefix.clone(); }
                if let Some(c) = &p.crumb { c(&prefix); }
            });
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self)));
            let end = match r { Ok(()) => End::Done, Err(e) => end_of(e) };
            with(|p| {
                if p.forks.len() < prefix.len() { p.diverged = true; }
                for d in prefix.len()..p.forks.len() {
                    let mut q = p.forks[..d].to_vec();
                    q.push((p.forks[d].0, !p.forks[d].1));
                    stack.push(q);
                }
                let out = p.take_out(end, false);
                p.outs.push(out);
            });
            if with(|p| p.diverged) { break; }
        }
        with(|p| p.leftover = stack);
    }
    fn choose(&mut self, name: &str, n: usize) -> usize {
        with(|p| {
            let t = p.new_var(name.to_string());
            p.assume(Atom::lt(t, Term::cst(n as i32)));
            for i in 0..n - 1 { if p.decide(Atom::le(t, Term::cst(i as i32))) { return i; } }
            n - 1
        })
    }
}

pub struct NatWorld { pub model: Vec<i32>, pub next: usize, pub observed: u64, pub failed: Vec<String>, pub notes: Vec<String> }
impl NatWorld {
    pub fn new(model: Vec<i32>) -> NatWorld { NatWorld { model, next: 0, observed: 0xcbf29ce484222325, failed: vec![], notes: vec![] } }
    fn take(&mut self) -> i32 { let i = self.next; self.next += 1; self.model.get(i).cloned().unwrap_or(0) }
}
impl World for NatWorld {
    type S = u8;
    fn sym(&mut self, name: &str) -> u8 { let v = self.take() as u8; self.notes.push(format!("{} = {}", name, v)); v }
    fn cst(&mut self, v: u8) -> u8 { v }
    fn assume_le(&mut self, a: &u8, b: &u8) { if !(a <= b) { std::panic::panic_any(Infeasible) } }
    fn assume_lt(&mut self, a: &u8, b: &u8) { if !(a < b) { std::panic::panic_any(Infeasible) } }
    fn require(&mut self, label: &str, b: B) { if !b.eval(&[]) { self.failed.push(label.to_string()) } }
    fn observe(&mut self, v: u64) { self.observed = (self.observed ^ v).wrapping_mul(0x100000001b3); }
    fn choose(&mut self, name: &str, _n: usize) -> usize { let v = self.take() as usize; self.notes.push(format!("{} = {}", name, v)); v }
    fn note(&mut self, s: impl FnOnce() -> String) { self.notes.push(s()) }
}
