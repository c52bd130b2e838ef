//! C05 C06 C09: symbol maps and the removal of overlaps
use crate::engine::*;
use crate::explore::Harness;
use crate::expr::*;
use crate::{twin, Tier};
use concordance::overlapping_symbols::SymbolMap;
use concordance::*;

pub type Rt = (Term, Term);
pub fn rt<S: Symbol>(r: &SymbolRange<S>) -> Rt { (r.lowest.term(), r.highest.term()) }
pub fn inside(x: Term, r: Rt) -> B { B::le(r.0, x).and(&B::le(x, r.1)) }
pub fn same(a: Rt, b: Rt) -> B { B::eq(a.0, b.0).and(&B::eq(a.1, b.1)) }
pub fn disjoint(a: Rt, b: Rt) -> B { B::lt(a.1, b.0).or(&B::lt(b.1, a.0)) }
pub fn subset(a: Rt, b: Rt) -> B { B::le(b.0, a.0).and(&B::le(a.1, b.1)) }

fn range<W: World>(w: &mut W) -> SymbolRange<W::S> {
    let a = w.sym("lo");
    let b = w.sym("hi");
    w.assume_le(&a, &b);
    SymbolRange::new(a, b)
}

/// How the ranges of a case are made
#[derive(Clone, Debug)]
pub enum Made {
    /// n arbitrary ranges
    Free(usize),
    /// n pairwise disjoint ones
    Apart(usize),
    /// n pairwise disjoint ascending ones, then some arbitrary ones
    Ladder(usize, usize),
    /// ranges between shared symbols a < b < c < ..., in this order of insertion
    Shared(Vec<(u8, u8)>),
}
impl Made {
    fn text(&self) -> String {
        match self {
            Made::Free(n) => format!("{} arbitrary ranges added in any order", n),
            Made::Apart(n) => format!("{} pairwise disjoint ranges", n),
            Made::Ladder(n, k) => format!("{} pairwise disjoint ranges and then {} arbitrary", n, k),
            Made::Shared(v) => format!("ranges between shared symbols: {}", v.iter().map(|(i, j)| format!("{}-{}", (b'a' + i) as char, (b'a' + j) as char)).collect::<Vec<_>>().join(" ")),
        }
    }
    fn make<W: World>(&self, w: &mut W) -> Vec<SymbolRange<W::S>> {
        let mut rs: Vec<SymbolRange<W::S>> = vec![];
        match self {
            Made::Free(n) => for _ in 0..*n { rs.push(range(w)); },
            Made::Apart(n) | Made::Ladder(n, _) => {
                for i in 0..*n {
                    let r = range(w);
                    if i > 0 { let p = rs[i - 1].highest.clone(); w.assume_lt(&p, &r.lowest); }
                    rs.push(r);
                }
                if let Made::Ladder(_, k) = self { for _ in 0..*k { rs.push(range(w)); } }
                // disjoint ones are added in a rotated order
                if let Made::Apart(n) = self {
                    let order: Vec<usize> = (0..*n).map(|i| (i * (n - 1) + n / 2) % n).collect();
                    if order.iter().collect::<std::collections::BTreeSet<_>>().len() == *n { rs = order.iter().map(|i| rs[*i].clone()).collect(); }
                }
            }
            Made::Shared(v) => {
                let mut pool = crate::pat::Pool::new();
                if let Some(top) = v.iter().map(|r| r.1).max() { pool.get(w, top); }
                for (i, j) in v { rs.push(SymbolRange::new(pool.get(w, *i), pool.get(w, *j))); }
            }
        }
        for r in &rs { w.note(|| format!("add_range {:?}", r)); }
        rs
    }
}
/// sets of ranges between `letters` symbols, at most `most` (or every `stride`-th of the larger ones), in an order that varies
fn range_sets(letters: u8, most: usize, stride: u64) -> Vec<Made> {
    let mut all: Vec<(u8, u8)> = vec![];
    for i in 0..letters { for j in i..letters { all.push((i, j)); } }
    let mut out = vec![];
    for m in 1..1u64 << all.len() {
        let n = m.count_ones() as usize;
        if n > most && (m.wrapping_mul(0x9E3779B97F4A7C15) >> 33) % stride != 0 { continue; }
        let mut v: Vec<(u8, u8)> = (0..all.len()).filter(|k| m >> k & 1 != 0).map(|k| all[k]).collect();
        let mut h = m.wrapping_mul(0xD6E8FEB86659FD93) ^ 0x1234567;
        for k in (1..v.len()).rev() { h ^= h << 13; h ^= h >> 7; h ^= h << 17; v.swap(k, (h % (k as u64 + 1)) as usize); }
        out.push(Made::Shared(v));
    }
    out
}

pub struct C05 { pub ns: Vec<Made> }
impl C05 {
    pub fn new(t: Tier) -> C05 {
        let mut ns: Vec<Made> = (0..5).map(Made::Free).collect();
        match t {
            Tier::Quick => { ns.extend([Made::Ladder(6, 1), Made::Ladder(3, 2), Made::Ladder(20, 0), Made::Apart(12)]); ns.extend(range_sets(4, 10, 1)); ns.extend(range_sets(5, 2, 40)); }
            Tier::Thorough => { ns.push(Made::Free(5)); ns.extend([Made::Ladder(12, 1), Made::Ladder(5, 2), Made::Ladder(40, 0), Made::Apart(30)]); ns.extend(range_sets(4, 10, 1)); ns.extend(range_sets(5, 4, 6)); }
        }
        C05 { ns }
    }
}
impl Harness for C05 {
    fn ncases(&self) -> usize { self.ns.len() }
    fn describe(&self, c: usize) -> String { self.ns[c].text() }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let mut map = SymbolMap::new();
        let rs = self.ns[case].make(w);
        let orig: Vec<Rt> = rs.iter().map(rt).collect();
        for r in &rs { map.add_range(r); }
        let flat = map.to_non_overlapping_map();
        let whole = SymbolRange::new(w.cst(0), w.cst(255));
        let pieces: Vec<Rt> = flat.find_overlapping_ranges(&whole).into_iter().map(rt).collect();
        w.note(|| format!("pieces {:?}", pieces));
        w.observe(pieces.len() as u64);
        for (i, p) in pieces.iter().enumerate() {
            w.require("pieces are not reversed", B::le(p.0, p.1));
            if i > 0 { w.require("pieces are sorted and pairwise disjoint", B::lt(pieces[i - 1].1, if twin() { Term { off: p.0.off - 1, ..p.0 } } else { p.0 })); }
            for o in &orig { w.require("every piece lies inside or outside each original range", disjoint(*p, *o).or(&subset(*p, *o))); }
        }
        let x = w.sym("any symbol").term();
        let covered = B::any(orig.iter().map(|r| inside(x, *r)));
        let now = B::any(pieces.iter().map(|r| inside(x, *r)));
        w.require("the pieces cover exactly the symbols of the original ranges", covered.iff(&now));
    }
}

pub struct C06 { pub ns: Vec<(Made, bool)> }
impl C06 {
    pub fn new(t: Tier) -> C06 {
        let th = matches!(t, Tier::Thorough);
        let mut ns: Vec<(Made, bool)> = vec![];
        for n in 0..=if th { 5 } else { 4 } { ns.push((Made::Free(n), false)); }
        for n in 4..=if th { 6 } else { 5 } { ns.push((Made::Apart(n), false)); }
        for n in 1..=if th { 3 } else { 2 } { ns.push((Made::Free(n), true)); }
        for n in if th { vec![12, 20, 40] } else { vec![9, 17] } { ns.push((Made::Apart(n), false)); }
        for (n, k) in if th { vec![(12, 1), (5, 2), (30, 0)] } else { vec![(8, 1), (4, 2), (18, 0)] } { ns.push((Made::Ladder(n, k), false)); }
        for m in range_sets(4, 10, 1) { ns.push((m, false)); }
        for (i, m) in range_sets(3, 6, 1).into_iter().enumerate() { if th || i % 3 == 0 { ns.push((m, true)); } }
        for m in if th { range_sets(5, 3, 10) } else { range_sets(5, 1, 80) } { ns.push((m, false)); }
        C06 { ns }
    }
}
impl Harness for C06 {
    fn ncases(&self) -> usize { self.ns.len() }
    fn describe(&self, c: usize) -> String { let (n, again) = &self.ns[c]; format!("{}{}, one arbitrary query", n.text(), if *again { ", all added twice" } else { "" }) }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let (made, again) = &self.ns[case];
        let mut map = SymbolMap::new();
        let rs = made.make(w);
        for r in &rs { map.add_range(r); }
        let whole = SymbolRange::new(w.cst(0), w.cst(255));
        if *again {
            let before: Vec<Rt> = map.find_overlapping_ranges(&whole).into_iter().map(rt).collect();
            for r in &rs {
                map.add_range(r);
                let after: Vec<Rt> = map.find_overlapping_ranges(&whole).into_iter().map(rt).collect();
                w.require("adding a range that is present changes nothing", B::c(before.len() == after.len()).and(&B::all(before.iter().zip(&after).map(|(a, b)| same(*a, *b)))));
            }
        }
        let q = range(w);
        w.note(|| format!("query {:?}", q));
        w.branch(|w| {
        let got: Vec<Rt> = map.find_overlapping_ranges(&q).into_iter().map(rt).collect();
        w.note(|| format!("found {:?}", got));
        w.observe(got.len() as u64);
        let stored: Vec<Rt> = rs.iter().map(rt).collect();
        let q = rt(&q);
        let q2 = if twin() { (Term { off: q.0.off - 1, ..q.0 }, q.1) } else { q };
        for (i, g) in got.iter().enumerate() {
            w.require("only stored ranges are returned", B::any(stored.iter().map(|s| same(*s, *g))));
            w.require("only overlapping ranges are returned", disjoint(*g, q).not());
            if i > 0 { let p = got[i - 1]; w.require("ascending order, each once", B::lt(p.0, g.0).or(&B::eq(p.0, g.0).and(&B::lt(p.1, g.1)))); }
        }
        for s in &stored { w.require("every overlapping range is returned", disjoint(*s, q2).or(&B::any(got.iter().map(|g| same(*g, *s))))); }
        });
    }
}

// ------------------------------------------------------------------------------------- C09
pub struct C09 { pub graphs: Vec<crate::p_nfa::Graph>, pub seed: u64 }
impl C09 { pub fn new(t: Tier, seed: u64) -> C09 { let mut graphs = crate::p_nfa::graphs(t, false); graphs.extend(crate::p_nfa::woven_graphs(matches!(t, Tier::Thorough))); graphs.extend(crate::p_nfa::large_graphs(matches!(t, Tier::Thorough)).into_iter().map(|g| g.0)); C09 { graphs, seed } } }
impl Harness for C09 {
    fn ncases(&self) -> usize { self.graphs.len() }
    fn describe(&self, c: usize) -> String { format!("overlap removal in machine {}", self.graphs[c].text()) }
    fn hash_seed(&self, _c: usize) -> u64 { self.seed }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let g = &self.graphs[case];
        let (mut m, _) = g.make(w);
        let n = m.count_states();
        let list = |m: &Ndfa<SymbolRange<W::S>, W::S>| -> Vec<Vec<(Rt, u32)>> { (0..n).map(|s| m.get_transitions_for_state(s).iter().map(|(r, t)| (rt(r), *t)).collect()).collect() };
        let outs = |m: &Ndfa<SymbolRange<W::S>, W::S>| -> Vec<Option<Term>> { (0..n).map(|s| m.output_symbol_for_state(s).map(|o| o.term())).collect() };
        let before = list(&m);
        let obefore = outs(&m);
        m.fix_overlapping_ranges();
        let after = list(&m);
        w.note(|| format!("before {:?}\nafter {:?}", before, after));
        w.observe(after.iter().map(|v| v.len()).sum::<usize>() as u64);
        w.require("same number of states", B::c(m.count_states() == n));
        let oafter = outs(&m);
        for (a, b) in obefore.iter().zip(&oafter) { w.require("outputs unchanged", match (a, b) { (None, None) => B::t(), (Some(a), Some(b)) => B::eq(*a, *b), _ => B::f() }); }
        let mut all: Vec<Rt> = vec![];
        for v in &after { for (r, _) in v { if !all.contains(r) { all.push(*r) } } }
        for i in 0..all.len() { for j in 0..i { w.require("any two ranges are identical or disjoint", same(all[i], all[j]).or(&disjoint(all[i], all[j]))); } }
        let x = w.sym("any symbol").term();
        for s in 0..n as usize { for t in 0..n {
            let f = |v: &Vec<(Rt, u32)>| B::any(v.iter().filter(|e| e.1 == t).map(|e| inside(x, e.0)));
            let b = if twin() && t == n - 1 { f(&before[s]).and(&B::lt(x, Term::cst(200))) } else { f(&before[s]) };
            w.require(&format!("state {} goes to {} on the same symbols as before", s, t), b.iff(&f(&after[s])));
        } }
        m.fix_overlapping_ranges();
        let again = list(&m);
        for s in 0..n as usize {
            // as multisets (the order of transitions carries no meaning)
            let ok = again[s].len() == after[s].len() && {
                let mut rest = again[s].clone();
                after[s].iter().all(|e| match rest.iter().position(|r| r.1 == e.1 && (r.0 == e.0)) { Some(i) => { rest.remove(i); true } None => false })
            };
            if ok { w.require("doing it twice is doing it once", B::t()); }
            else {
                // terms may differ syntactically: compare what they mean
                for t in 0..n {
                    let f = |v: &Vec<(Rt, u32)>| B::any(v.iter().filter(|e| e.1 == t).map(|e| inside(x, e.0)));
                    w.require("doing it twice is doing it once", f(&after[s]).iff(&f(&again[s])));
                }
            }
        }
    }
}
