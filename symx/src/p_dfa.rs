//! C10: matchers built state by state
use crate::engine::*;
use crate::explore::Harness;
use crate::expr::*;
use crate::p_map::*;
use crate::p_pattern::{inputs, opt_hash};
use crate::pat::longest;
use crate::{twin, Tier};
use concordance::*;

#[derive(Clone, Debug)]
/// targets in ascending range order, and whether the state accepts; `shared`: the k-th transition of every
/// state is on the k-th symbol of a shared alphabet (NONE: no such transition)
pub struct Table { pub rows: Vec<(Vec<u32>, bool)>, pub len: usize, pub shared: bool }
const NONE: u32 = 999;
impl Table {
    /// hands the table to the builder; also what was handed over: transitions and outputs of each state
    pub fn make<W: World>(&self, w: &mut W) -> (SymbolRangeDfa<W::S, W::S>, Vec<Vec<(Rt, u32)>>, Vec<Option<Term>>) {
        let mut b: SymbolRangeDfaBuilder<W::S, W::S> = SymbolRangeDfaBuilder::new();
        let mut pool = crate::pat::Pool::new();
        let mut rows: Vec<Vec<(Rt, u32)>> = vec![];
        let mut outs: Vec<Option<Term>> = vec![];
        for (i, (targets, acc)) in self.rows.iter().enumerate() {
            b.start_state();
            let mut row: Vec<(Rt, u32)> = vec![];
            let mut prev: Option<W::S> = None;
            let out = if *acc { Some(w.sym("output")) } else { None };
            // the output may be set before or after the transitions
            if i % 2 == 0 { if let Some(o) = &out { b.accept(o.clone()); } }
            for (k, to) in targets.iter().enumerate() {
                if *to == NONE { continue; }
                let (lo, hi) = if self.shared { let s = pool.get(w, k as u8); (s.clone(), s) } else {
                    let lo = w.sym("lo");
                    let hi = w.sym("hi");
                    w.assume_le(&lo, &hi);
                    if let Some(p) = &prev { w.assume_lt(p, &lo); }
                    prev = Some(hi.clone());
                    (lo, hi)
                };
                row.push(((lo.term(), hi.term()), *to));
                w.note(|| format!("state {}: {:?}..={:?} -> {}", i, lo, hi, to));
                b.transition(SymbolRange::new(lo, hi), *to);
            }
            if i % 2 == 1 { if let Some(o) = &out { b.accept(o.clone()); } }
            rows.push(row);
            outs.push(out.map(|o| o.term()));
        }
        let dfa = b.build();
        (dfa, rows, outs)
    }
}
pub struct C10 { pub tables: Vec<Table> }
impl C10 {
    pub fn new(t: Tier) -> C10 {
        let th = matches!(t, Tier::Thorough);
        let mut v = vec![];
        // one state
        for k in 0..4usize { for o in [false, true] { v.push(Table { rows: vec![(vec![0; k], o)], len: if k <= 2 { 3 } else { 2 }, shared: false }); } }
        // two states: every target list with up to two transitions (three in the first state)
        let lists2: Vec<Vec<u32>> = lists(2, 2);
        let first: Vec<Vec<u32>> = lists(2, if th { 4 } else { 3 });
        for a in &first { for b in &lists2 { for o in 0..4 {
            let tr = a.len() + b.len();
            if tr > if th { 5 } else { 4 } { continue; }
            if tr == 4 && !th && o != 2 && o != 1 { continue; }
            v.push(Table { rows: vec![(a.clone(), o & 1 != 0), (b.clone(), o & 2 != 0)], len: if th { 3 } else { 2 }, shared: false });
        } } }
        // three states
        for a in lists(3, 2) { for b in lists(3, 1) { for c in lists(3, 1) { for o in 0..8 {
            let tr = a.len() + b.len() + c.len();
            if tr > 3 && !th { continue; }
            if !th && o != 0 && o != 4 && o != 3 && o != 5 { continue; }
            v.push(Table { rows: vec![(a.clone(), o & 1 != 0), (b.clone(), o & 2 != 0), (c.clone(), o & 4 != 0)], len: 3, shared: false });
        } } } }
        // chains that get merged
        for n in 3..=if th { 5 } else { 4 } {
            v.push(Table { rows: vec![(vec![1; n], false), (vec![0], true)], len: 2, shared: false });
            v.push(Table { rows: vec![(vec![0], true), (vec![1; n], true)], len: 2, shared: false });
            let mut mix = vec![1; n]; mix[1] = 0;
            v.push(Table { rows: vec![(mix, false), (vec![], true)], len: 2, shared: false });
        }
        v.push(Table { rows: vec![(vec![1, 1, 2, 2], false), (vec![], true), (vec![], true)], len: 1, shared: false });
        // longer runs through tables over a shared alphabet
        for t in lists_exact(2, 4) { for o in 1..4 { v.push(Table { rows: vec![(t[..2].to_vec(), o & 1 != 0), (t[2..].to_vec(), o & 2 != 0)], len: if th { 7 } else { 5 }, shared: true }); } }
        for t in lists_exact(3, 6) { for o in if th { vec![1, 2, 3, 4, 5, 6] } else { vec![4, 3] } { v.push(Table { rows: (0..3).map(|s| (t[2 * s..2 * s + 2].to_vec(), o & (1 << s) != 0)).collect(), len: if th { 6 } else { 4 }, shared: true }); } }
        for t in lists_exact(3, 6) {
            // the same with a transition missing here and there
            let mut t = t; let h = t.iter().fold(7u32, |a, x| a.wrapping_mul(31).wrapping_add(*x)); t[(h % 6) as usize] = NONE; t[(h / 6 % 6) as usize] = NONE;
            v.push(Table { rows: (0..3).map(|s| (t[2 * s..2 * s + 2].to_vec(), s == (h % 3) as usize || s == 2)).collect(), len: if th { 5 } else { 4 }, shared: true });
        }
        for t in lists_exact(4, 4) { v.push(Table { rows: (0..4).map(|s| (vec![t[s], NONE, t[3 - s]], s % 3 == 2)).collect(), len: if th { 6 } else { 4 }, shared: true }); v.push(Table { rows: vec![(t.clone(), true), (vec![0], false), (vec![3, 3, 3], true), (vec![NONE, 0], false)], len: if th { 4 } else { 3 }, shared: true }); }
        v.extend(large_tables(th));
        C10 { tables: v }
    }
}
/// many transitions in one state, many states
pub fn large_tables(th: bool) -> Vec<Table> {
    let mut v = vec![];
    for n in if th { vec![6, 9, 12, 17, 20, 33, 40] } else { vec![9, 17, 33] } {
        v.push(Table { rows: vec![((0..n).map(|i| i % 2).collect(), false), ((0..n).map(|i| 1 - i % 2).collect(), true)], len: if n < 20 { 2 } else { 1 }, shared: true });
        v.push(Table { rows: vec![((0..n).map(|i| 1 + i % 2).collect(), false), (vec![], true), (vec![0, NONE, 1], true)], len: 1, shared: n > 24 });
    }
    // same target for several neighbours, apart from gaps
    for n in [6u32, 8] { v.push(Table { rows: vec![((0..n).map(|i| if i == n / 2 { 0 } else { 1 }).collect(), false), (vec![0], true)], len: 1, shared: true }); }
    for n in if th { vec![9u32, 17, 33, 65] } else { vec![9, 17, 33] } {
        let len = if n == 33 && !th { 20 } else { n as usize + 1 };
        let chain = |f: &dyn Fn(u32) -> Vec<u32>, acc: &dyn Fn(u32) -> bool| Table { rows: (0..n).map(|s| (f(s), acc(s))).collect(), len, shared: true };
        // along a chain, back to its start, with an exit on the way
        v.push(chain(&|s| vec![(s + 1) % n], &|s| s == n - 1));
        v.push(chain(&|s| vec![if s + 1 < n { s + 1 } else { 0 }], &|s| s % 4 == 2));
        v.push(chain(&|s| if s + 1 < n { vec![s + 1] } else { vec![] }, &|s| s == 1 || s == n - 2));
        // backwards through the numbers
        v.push(chain(&|s| vec![if s == 0 { n - 1 } else { s - 1 }], &|s| s == n / 2));
    }
    v
}
fn lists_exact(n: u32, k: usize) -> Vec<Vec<u32>> { lists(n, k).into_iter().filter(|l| l.len() == k).collect() }
fn lists(n: u32, max: usize) -> Vec<Vec<u32>> {
    let mut out: Vec<Vec<u32>> = vec![vec![]];
    let mut cur: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..max { cur = cur.iter().flat_map(|v| (0..n).map(move |t| { let mut w = v.clone(); w.push(t); w })).collect(); out.extend(cur.clone()); }
    out
}
impl Harness for C10 {
    fn ncases(&self) -> usize { self.tables.len() }
    fn describe(&self, c: usize) -> String { let t = &self.tables[c]; format!("table {:?} (targets in ascending range order, accepting) on inputs of length <= {}", t.rows, t.len) }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let t = &self.tables[case];
        let (dfa, rows, outs) = t.make(w);
        let input = inputs(w, t.len);
        w.note(|| format!("outputs {:?} input {:?}", outs, input));
        // what the machine says about itself
        let n = rows.len();
        w.require("same number of states", B::c(dfa.count_states() as usize == n));
        if dfa.count_states() as usize != n { return; }
        let kept: usize = (0..n).map(|s| dfa.get_transitions_for_state(s as u32).len()).sum();
        let text = dfa.description();
        w.note(|| format!("description {:?}", text));
        let said: Vec<usize> = text.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        w.require("the description has the numbers of states and transitions", B::c(said.contains(&n) && said.contains(&kept)));
        let x = w.sym("any symbol").term();
        for s in 0..n {
            let got: Vec<(Rt, u32)> = dfa.get_transitions_for_state(s as u32).iter().map(|(r, t)| (rt(r), *t)).collect();
            let targets: std::collections::BTreeSet<u32> = got.iter().map(|g| g.1).chain(rows[s].iter().map(|r| r.1)).collect();
            for to in targets {
                let f = |v: &Vec<(Rt, u32)>| B::any(v.iter().filter(|e| e.1 == to).map(|e| inside(x, e.0)));
                w.require("the reported transitions are the ones given", f(&got).iff(&f(&rows[s])));
            }
            let o = dfa.output_symbol_for_state(s as u32).map(|o| o.term());
            w.require("the reported outputs are the ones given", match (o, outs[s]) { (None, None) => B::t(), (Some(a), Some(b)) => B::eq(a, b), _ => B::f() });
        }
        // the table's own meaning: at[l][s]
        let mut at: Vec<Vec<B>> = vec![(0..n).map(|s| B::c(s == 0)).collect()];
        for x in &input {
            let x = x.term();
            let last = at.last().unwrap().clone();
            at.push((0..n).map(|to| B::any((0..n).flat_map(|s| { let l = last[s].clone(); rows[s].iter().filter(|e| e.1 as usize == to).map(move |e| l.and(&inside(x, e.0))).collect::<Vec<_>>() }))).collect());
        }
        let acc: Vec<B> = (0..=t.len).map(|l| B::any((0..n).filter(|s| outs[*s].is_some()).map(|s| at[l][s].clone()))).collect();
        let alive: Vec<B> = (0..=t.len).map(|l| B::any(at[l].iter().cloned())).collect();
        let right = |k: Option<(usize, Term)>, l: usize| -> B {
            let k0 = k.map(|k| if twin() { k.0.saturating_sub(1) } else { k.0 });
            let len_ok = longest(&acc[..=l], k0);
            match k { None => len_ok, Some((k, o)) if k <= l => len_ok.and(&B::any((0..n).filter(|s| outs[*s].is_some()).map(|s| at[k][s].and(&B::eq(o, outs[s].unwrap()))))), _ => B::f() }
        };
        // step by hand, finishing early at every point
        w.branch(|w| {
        let mut st = dfa.start();
        for l in 0..=t.len {
            let s = match st {
                More(s) => s,
                other => {
                    let k = match other { Accept(n, o) => Some((n, o.term())), _ => None };
                    w.observe(opt_hash(k.map(|k| k.0)));
                    w.note(|| format!("stopped after {} symbols: {:?}", l, k));
                    w.require("it stops only when the table has no transition", alive[l].not());
                    w.require("the answer when it stops", right(k, l));
                    return;
                }
            };
            w.require("it goes on only when the table has a transition", alive[l].clone());
            let k = match s.clone().finish() { Accept(n, o) => Some((n, o.term())), Reject => None, More(_) => { w.require("finish gives an answer", B::f()); return; } };
            w.observe(opt_hash(k.map(|k| k.0)));
            w.note(|| format!("finish after {} symbols: {:?}", l, k));
            w.require("finishing early gives the answer for the symbols read so far", right(k, l));
            if l == t.len { break; }
            st = s.next(input[l].clone());
        }
        });
    }
}
