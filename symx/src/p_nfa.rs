//! C03 C04: hand-built state machines
use crate::engine::*;
use crate::explore::Harness;
use crate::expr::*;
use crate::p_map::*;
use crate::p_pattern::{inputs, opt_hash, run_match};
use crate::pat::longest;
use crate::{twin, Tier};
use concordance::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
/// U is a transition on symbols shared by the whole machine (a < b < ...), T one on a range of its own
pub enum Op { T(u32, u32), U(u32, u32, u8, u8), J(u32, u32), O(u32), C(u32) }
#[derive(Clone, Debug)]
pub struct Graph { pub ops: Vec<Op> }
impl Graph {
    pub fn text(&self) -> String {
        self.ops.iter().map(|o| match o { Op::T(a, b) => format!("{}-[r]->{}", a, b), Op::U(a, b, i, j) => format!("{}-{}->{}", a, if i == j { format!("{}", (b'a' + i) as char) } else { format!("[{}-{}]", (b'a' + i) as char, (b'a' + j) as char) }, b), Op::J(a, b) => format!("join({},{})", a, b), Op::O(a) => format!("out({})", a), Op::C(a) => format!("create({})", a) }).collect::<Vec<_>>().join(" ")
    }
    pub fn ranges(&self) -> usize { self.ops.iter().filter(|o| matches!(o, Op::T(..))).count() }
    pub fn outs(&self) -> usize { self.ops.iter().filter(|o| matches!(o, Op::O(..))).count() }
    /// builds it with symbolic ranges and outputs through the public construction calls
    pub fn make<W: World>(&self, w: &mut W) -> (Ndfa<SymbolRange<W::S>, W::S>, Spec) {
        let mut m = Ndfa::new();
        let mut sp = Spec::default();
        let mut pool = crate::pat::Pool::new();
        for op in &self.ops {
            match *op {
                Op::T(a, b) => {
                    let lo = w.sym("lo");
                    let hi = w.sym("hi");
                    w.assume_le(&lo, &hi);
                    sp.trans.push((a, (lo.term(), hi.term()), b));
                    sp.top = sp.top.max(a).max(b);
                    w.note(|| format!("add_transition({}, {:?}..={:?}, {})", a, lo, hi, b));
                    m.add_transition(a, SymbolRange::new(lo, hi), b);
                }
                Op::U(a, b, i, j) => {
                    let hi = pool.get(w, j);
                    let lo = pool.get(w, i);
                    sp.trans.push((a, (lo.term(), hi.term()), b));
                    sp.top = sp.top.max(a).max(b);
                    w.note(|| format!("add_transition({}, {:?}..={:?}, {})", a, lo, hi, b));
                    m.add_transition(a, SymbolRange::new(lo, hi), b);
                }
                Op::J(a, b) => { sp.joins.push((a, b)); sp.top = sp.top.max(a).max(b); w.note(|| format!("join_states({}, {})", a, b)); m.join_states(a, b); }
                Op::O(a) => {
                    let t = w.sym("output");
                    sp.outs.retain(|o| o.0 != a);
                    sp.outs.push((a, t.term()));
                    sp.top = sp.top.max(a);
                    w.note(|| format!("set_output_symbol({}, {:?})", a, t));
                    m.set_output_symbol(a, t);
                }
                Op::C(a) => { sp.top = sp.top.max(a); w.note(|| format!("create_state({})", a)); m.create_state(a); }
            }
        }
        (m, sp)
    }
}
/// what was built, as plain facts
#[derive(Default, Clone, Debug)]
pub struct Spec { pub trans: Vec<(u32, Rt, u32)>, pub joins: Vec<(u32, u32)>, pub outs: Vec<(u32, Term)>, pub top: u32 }
impl Spec {
    pub fn closure(&self, s: u32) -> Vec<u32> {
        let mut r = vec![s];
        loop {
            let n = r.len();
            for (a, b) in &self.joins { if r.contains(a) && !r.contains(b) { r.push(*b) } }
            if r.len() == n { return r; }
        }
    }
    /// at[l][s]: some path on the first l symbols ends in s (joins followed)
    pub fn paths(&self, input: &[Term]) -> Vec<Vec<B>> {
        let n = self.top + 1;
        let c0 = self.closure(0);
        let mut at = vec![(0..n).map(|s| B::c(c0.contains(&s))).collect::<Vec<B>>()];
        for x in input {
            let last = at.last().unwrap().clone();
            let mut next: Vec<Vec<B>> = vec![vec![]; n as usize];
            for (a, r, b) in &self.trans {
                let can = last[*a as usize].and(&inside(*x, *r));
                for c in self.closure(*b) { next[c as usize].push(can.clone()); }
            }
            at.push(next.into_iter().map(B::any).collect());
        }
        at
    }
}

/// all machines with the given number of states and at most `max` construction calls
fn enumerate(states: u32, max: usize, max_t: usize, max_j: usize, max_o: usize) -> Vec<Graph> {
    let mut pool = vec![];
    for a in 0..states { for b in 0..states { pool.push(Op::T(a, b)); } }
    for a in 0..states { for b in 0..states { if a != b { pool.push(Op::J(a, b)); } } }
    for a in 0..states { pool.push(Op::O(a)); }
    let mut out = vec![];
    fn rec(pool: &[Op], from: usize, cur: &mut Vec<Op>, max: usize, lim: (usize, usize, usize), out: &mut Vec<Graph>) {
        if !cur.is_empty() { out.push(Graph { ops: cur.clone() }); }
        if cur.len() == max { return; }
        for i in from..pool.len() {
            let n = |f: fn(&Op) -> bool| cur.iter().filter(|o| f(o)).count();
            let ok = match pool[i] { Op::T(..) => n(|o| matches!(o, Op::T(..))) < lim.0, Op::J(..) => n(|o| matches!(o, Op::J(..))) < lim.1, _ => n(|o| matches!(o, Op::O(..))) < lim.2 };
            if !ok { continue; }
            cur.push(pool[i]);
            // two transitions between the same states are allowed
            rec(pool, if matches!(pool[i], Op::T(..)) { i } else { i + 1 }, cur, max, lim, out);
            cur.pop();
        }
    }
    rec(&pool, 0, &mut vec![], max, (max_t, max_j, max_o), &mut out);
    out
}
fn states_used(g: &Graph) -> (u32, bool) {
    // highest state, and whether every lower state appears
    let mut seen = std::collections::BTreeSet::new();
    seen.insert(0);
    for o in &g.ops { match o { Op::T(a, b) | Op::J(a, b) | Op::U(a, b, ..) => { seen.insert(*a); seen.insert(*b); } Op::O(a) | Op::C(a) => { seen.insert(*a); } } }
    let top = *seen.iter().max().unwrap();
    (top, seen.len() as u32 == top + 1)
}
use Op::*;
pub fn picked_graphs(th: bool) -> Vec<Graph> {
    let mut v: Vec<Vec<Op>> = vec![
        vec![T(0, 1), T(0, 2), O(1), O(2)], vec![T(0, 1), T(0, 2), T(1, 2), O(2)], vec![T(0, 0), T(0, 1), O(1)], vec![J(0, 1), J(1, 2), J(2, 0), T(2, 3), O(3)],
        vec![T(0, 1), J(1, 2), J(1, 3), O(2), O(3)], vec![J(0, 1), J(0, 2), O(1), O(2)], vec![J(0, 1), J(0, 2), O(0), O(1), O(2)], vec![J(0, 2), O(1), O(2), J(0, 1), O(0)],
        vec![T(0, 1), T(1, 0), O(0), O(1)], vec![T(0, 1), T(1, 2), J(2, 0), O(2)], vec![O(2), T(1, 2), J(0, 1), T(0, 1)], vec![J(1, 0), T(0, 1), O(1)],
        vec![J(0, 0), T(0, 1), O(1)], vec![T(0, 1), T(0, 1), O(1)], vec![T(0, 2), J(2, 1), T(1, 0), O(0)], vec![T(0, 1), J(1, 0), T(0, 2), O(2)],
        vec![T(0, 3), J(3, 4), J(4, 3), O(4), O(3)], vec![T(0, 1), T(0, 2), J(1, 3), J(2, 3), O(3)], vec![O(0), T(0, 1), O(1), J(1, 0)], vec![T(0, 5), O(5)], vec![O(3), J(0, 3), C(7)], vec![C(0)],
        vec![T(0, 1), O(1), O(1)], vec![J(0, 1), J(0, 1), T(1, 2), O(2)], vec![J(3, 0), J(0, 2), T(2, 3), O(3), O(0)],
        vec![T(0, 1), J(1, 2), J(2, 3), J(3, 4), O(4), O(2)], vec![J(0, 1), J(0, 2), J(0, 3), O(1), O(2), O(3)],
    ];
    if th {
        v.extend(vec![
            vec![T(0, 1), T(0, 2), T(0, 3), O(1), O(2), O(3)], vec![T(0, 0), T(0, 1), T(1, 2), O(2)], vec![T(0, 1), T(1, 2), T(0, 2), J(2, 0), O(2), O(1)],
            vec![J(0, 1), J(0, 2), T(1, 1), T(2, 2), T(1, 3), O(3)], vec![T(0, 1), T(1, 2), T(2, 0), O(0), O(2)], vec![T(0, 1), T(1, 1), T(1, 0), O(0), J(1, 0)],
            vec![J(0, 1), J(0, 2), J(0, 3), J(0, 4), O(1), O(2), O(3), O(4)], vec![T(0, 1), J(1, 2), J(1, 3), J(1, 4), O(4), O(3), O(2), O(1)],
            vec![T(0, 1), T(0, 2), T(1, 3), T(2, 4), O(3), O(4)],
        ]);
    }
    v.into_iter().map(|ops| Graph { ops }).collect()
}
/// the machines a tier explores; `light` keeps those with few ranges
pub fn graphs(t: Tier, light: bool) -> Vec<Graph> {
    let th = matches!(t, Tier::Thorough);
    let mut v: Vec<Graph> = vec![];
    let keep = |g: &Graph| states_used(g).1 && g.ranges() > 0;
    v.extend(enumerate(1, 3, 3, 0, 1).into_iter().filter(|g| g.ranges() < if light { 3 } else { 4 }));
    v.extend(enumerate(2, if th { 5 } else { 4 }, 2, 2, 2).into_iter().filter(keep));
    if light && !th { v.retain(|g| g.ranges() <= 2); }
    v.extend(enumerate(3, if th { 4 } else { 3 }, 2, 2, 2).into_iter().filter(|g| keep(g) && states_used(g).0 == 2));
    if th && !light { v.extend(enumerate(2, 4, 3, 1, 1).into_iter().filter(|g| keep(g) && g.ranges() == 3)); }
    v.extend(picked_graphs(th).into_iter().filter(|g| g.ranges() <= if th { 4 } else { 3 }));
    v
}

/// machines over shared symbols: fans, subsets that explode, joins between alike states
pub fn woven_graphs(th: bool) -> Vec<Graph> {
    let mut v: Vec<Vec<Op>> = vec![
        vec![U(0, 1, 0, 0), U(0, 2, 0, 0), U(0, 3, 0, 0), U(0, 4, 0, 0), O(1), O(2), O(3), O(4)],
        vec![U(0, 1, 0, 0), U(0, 2, 0, 0), U(0, 3, 0, 0), U(0, 4, 0, 0), U(0, 5, 0, 0), U(4, 6, 1, 1), O(6)],
        vec![U(0, 1, 0, 0), U(0, 2, 0, 0), U(0, 3, 0, 0), U(0, 4, 0, 0), U(1, 5, 0, 0), U(2, 5, 1, 1), U(3, 5, 2, 2), U(4, 5, 3, 3), O(5)],
        vec![U(0, 0, 0, 1), U(0, 1, 0, 0), U(1, 2, 0, 1), U(2, 3, 0, 1), O(3)], vec![U(0, 0, 0, 1), U(0, 1, 0, 0), U(1, 2, 0, 1), U(2, 3, 0, 1), U(3, 4, 0, 1), O(4), O(2)],
        vec![U(0, 1, 0, 1), U(0, 2, 1, 2), U(0, 3, 0, 2), U(0, 4, 1, 1), O(1), O(2), O(3), O(4)], vec![U(0, 1, 0, 3), U(0, 2, 1, 2), U(0, 1, 2, 3), U(0, 2, 0, 1), O(1), O(2)],
        vec![U(0, 1, 0, 0), U(1, 2, 0, 0), U(2, 0, 0, 0), U(0, 3, 0, 0), U(3, 0, 0, 0), O(0)], vec![U(0, 1, 0, 0), J(1, 0), U(1, 2, 1, 1), J(2, 0), J(2, 1), O(2)],
        vec![J(0, 1), J(0, 2), J(0, 3), J(0, 4), U(1, 5, 0, 0), U(2, 6, 0, 0), U(3, 7, 0, 0), U(4, 8, 0, 0), O(5), O(6), O(7), O(8)],
        vec![J(0, 1), J(1, 2), J(2, 3), J(3, 4), J(4, 5), U(5, 6, 0, 0), O(6)], vec![J(0, 5), J(5, 1), J(1, 4), J(4, 2), J(2, 3), U(3, 6, 0, 0), U(4, 6, 1, 1), O(6), O(3)],
        vec![U(0, 3, 0, 0), J(3, 1), J(1, 4), J(4, 2), U(2, 0, 1, 1), O(2), O(4)], vec![U(0, 1, 0, 0), U(0, 1, 1, 1), U(0, 1, 2, 2), U(0, 2, 1, 1), U(1, 1, 0, 2), O(2), O(1)],
        vec![U(1, 2, 0, 0), J(0, 1), U(2, 3, 0, 1), J(2, 1), U(3, 1, 1, 1), J(3, 0), O(3), O(1)],
        vec![U(0, 1, 0, 0), U(0, 2, 0, 0), U(1, 3, 1, 1), U(2, 4, 1, 1), U(3, 5, 0, 0), U(4, 6, 0, 0), O(5), O(6)], vec![U(0, 1, 0, 1), U(0, 2, 0, 0), U(1, 1, 0, 1), U(2, 2, 0, 0), U(1, 2, 1, 1), O(1), O(2)],
    ];
    // every machine of two states with up to three (four) transitions on a, b or either
    let mut pool: Vec<Op> = vec![];
    for a in 0..2 { for b in 0..2 { for (i, j) in [(0, 0), (1, 1), (0, 1)] { pool.push(U(a, b, i, j)); } } }
    let most = if th { 5 } else { 4 };
    for set in subsets(pool.len(), most) {
        let ops: Vec<Op> = set.iter().map(|i| pool[*i]).collect();
        if !ops.iter().any(|o| matches!(o, U(0, ..))) { continue; }
        v.push([&ops[..], &[O(1)]].concat());
        if set.len() <= most - 1 { v.push([&[O(1)], &ops[..], &[O(0)]].concat()); v.push([&ops[..], &[O(1), J(1, 0)]].concat()); v.push([&[J(0, 1)], &ops[..], &[O(1)]].concat()); }
    }
    // three states, up to three transitions, up to one join
    let mut pool: Vec<Op> = vec![];
    for a in 0..3 { for b in 0..3 { for (i, j) in [(0, 0), (0, 1)] { pool.push(U(a, b, i, j)); } } }
    for set in subsets(pool.len(), if th { 4 } else { 3 }) {
        let ops: Vec<Op> = set.iter().map(|i| pool[*i]).collect();
        if !ops.iter().any(|o| matches!(o, U(0, ..))) || !states_used(&Graph { ops: ops.clone() }).1 || states_used(&Graph { ops: ops.clone() }).0 != 2 { continue; }
        v.push([&ops[..], &[O(2), O(1)]].concat());
        if set.len() <= 3 { for (a, b) in [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)] { v.push([&ops[..], &[O(2), J(a, b)]].concat()); } }
    }
    v.into_iter().map(|ops| Graph { ops }).collect()
}
/// many states, long chains of joins, far-apart state numbers, wide fans; with the input's length
pub fn large_graphs(th: bool) -> Vec<(Graph, usize)> {
    let mut v: Vec<(Vec<Op>, usize)> = vec![];
    for n in if th { vec![9u32, 17, 33, 40] } else { vec![9, 18, 33] } {
        let l = n as usize + 1;
        v.push(((0..n).map(|i| U(i, i + 1, (i % 2) as u8, (i % 2) as u8)).chain(vec![O(n), O(2)]).collect(), l));
        v.push(((0..n).map(|i| U(i, i + 1, 0, 0)).chain(vec![J(n, 0), O(n - 1)]).collect(), l + 2));
        // the same numbered downwards
        v.push((vec![U(0, n, 0, 0)].into_iter().chain((1..n).map(|i| U(i + 1, i, 0, 0))).chain(vec![O(1), O(n / 2)]).collect(), l));
        // joins one after the other, forwards and backwards, with something at the end
        v.push(((0..n).map(|i| J(i, i + 1)).chain(vec![U(n, n + 1, 0, 0), O(n + 1), O(n)]).collect(), 2));
        v.push(((0..n).rev().map(|i| J(i, i + 1)).chain(vec![U(n, 0, 0, 0), O(n)]).collect(), 3));
        v.push((vec![J(0, n)].into_iter().chain((1..n).rev().map(|i| J(i + 1, i))).chain(vec![U(1, 2, 0, 0), O(1)]).collect(), 3));
        // one state joined to many, many joined to one
        v.push(((1..=n).map(|i| J(0, i)).chain((1..=n).filter(|i| i % 5 == 2).map(|i| U(i, n + 1, 0, 0))).chain(vec![O(n + 1), O(n)]).collect(), 2));
        v.push(((1..=n).map(|i| U(0, i, 0, 0)).chain((1..=n).map(|i| J(i, n + 1))).chain(vec![U(n + 1, 0, 1, 1), O(n + 1)]).collect(), 3));
        // many targets on one symbol
        v.push(((1..=n).map(|i| U(0, i, 0, 0)).chain((1..=n).filter(|i| i % 4 == 1).map(|i| U(i, i / 2, 1, 1))).chain(vec![O(n / 2), O(n / 2 - 1)]).collect(), 2));
        // state numbers far apart
        v.push((vec![U(0, n, 0, 0), U(n, 3 * n, 0, 1), J(3 * n, 2 * n), U(2 * n, 0, 1, 1), O(2 * n), O(n)], 4));
        v.push((vec![O(4 * n), J(2, 4 * n), U(0, 2, 0, 0), U(4 * n, 1, 0, 0), C(5 * n), J(1, 5 * n), O(5 * n)], 3));
    }
    // states whose numbers differ by a power of two, reachable together
    for d in if th { vec![8u32, 16, 32, 64, 128, 256, 512] } else { vec![16, 32, 64, 128, 256] } {
        v.push((vec![U(0, 1, 0, 0), U(0, 1 + d, 0, 0), U(1, 2, 1, 1), U(1 + d, 3, 2, 2), O(2), O(3)], 3));
        v.push((vec![U(0, 1 + d, 0, 0), U(1 + d, 3, 2, 2), U(0, 1, 0, 1), O(1 + d), O(3), U(1, 1, 0, 0)], 3));
        v.push((vec![J(0, d), U(d, d + 1, 0, 0), U(0, 2, 0, 0), U(2, 2, 1, 1), O(d + 1), U(d + 1, 0, 1, 1), O(2)], 3));
        v.push((vec![J(1, d + 1), U(0, 1, 0, 0), U(d + 1, 1, 1, 1), U(1, d, 0, 0), O(d)], 4));
    }
    // the k-th symbol from the end: 2^k sets of states
    for k in if th { vec![3u32, 4, 5, 6] } else { vec![3, 4, 5] } { v.push(((1..k).map(|i| U(i, i + 1, 0, 1)).chain(vec![U(0, 0, 0, 1), U(0, 1, 0, 0), O(k)]).collect(), k as usize + if k < 5 { 3 } else { 1 })); }
    // many symbols
    for n in if th { vec![9u32, 17] } else { vec![9] } {
        v.push(((0..n).map(|i| U(0, 1 + i % 3, i as u8, i as u8)).chain(vec![O(1), O(3)]).collect(), 1));
        v.push(((0..n).map(|i| U(0, i + 1, 0, i as u8)).chain(vec![O(n), O(1)]).collect(), 1));
    }
    v.into_iter().map(|(ops, l)| (Graph { ops }, l)).collect()
}
pub fn subsets(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        cur = cur.iter().flat_map(|v| (v.last().map(|x| x + 1).unwrap_or(0)..n).map(move |i| { let mut w = v.clone(); w.push(i); w })).collect();
        out.extend(cur.clone());
    }
    out
}

// ------------------------------------------------------------------------------------- C03
pub struct C03 { pub cases: Vec<(Graph, usize, u64)> }
impl C03 {
    pub fn new(t: Tier, seed: u64) -> C03 {
        let th = matches!(t, Tier::Thorough);
        let mut v = vec![];
        let seeds: Vec<u64> = if th { vec![seed, seed + 1] } else { vec![seed] };
        for sd in seeds {
            for g in graphs(t, false) {
                if g.outs() == 0 { continue; }
                let len = match g.ranges() { 0 => 1, 1 => if th { 4 } else { 3 }, 2 => if th { 3 } else { 2 }, _ => 2 };
                if g.ranges() >= 3 && !th { v.push((g, 1, sd)); } else { v.push((g, len, sd)); }
            }
            for g in picked_graphs(th) { if g.ranges() == 0 { v.push((g.clone(), 1, sd)); let mut r = g; r.ops.reverse(); v.push((r, 1, sd)); } }
        }
        for g in woven_graphs(th) { let n = g.ops.len(); v.push((g, if th { 6 } else if n > 8 { 3 } else { 4 }, seed)); }
        for (g, l) in large_graphs(th) { v.push((g, l, seed)); }
        // every order of calls for a few machines
        for g in [vec![J(0, 1), O(1), O(0)], vec![T(0, 1), J(1, 2), O(2)], vec![J(0, 1), J(1, 2), O(1), O(2)], vec![T(0, 1), J(0, 1), O(1)]] {
            for p in perms(g.len()) { v.push((Graph { ops: p.iter().map(|i| g[*i]).collect() }, 2, seed)); }
        }
        C03 { cases: v }
    }
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    perms(n - 1).into_iter().flat_map(|p| (0..n).map(move |i| { let mut q = p.clone(); q.insert(i, n - 1); q })).collect()
}
impl Harness for C03 {
    fn ncases(&self) -> usize { self.cases.len() }
    fn describe(&self, c: usize) -> String { let (g, l, _) = &self.cases[c]; format!("machine {} on every input of length <= {}", g.text(), l) }
    fn hash_seed(&self, c: usize) -> u64 { self.cases[c].2 }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let (g, len, _) = &self.cases[case];
        let (mut m, sp) = g.make(w);
        m.fix_overlapping_ranges();
        let input = inputs(w, *len);
        w.note(|| format!("input {:?}", input));
        let boxed: Box<dyn StateMachine<SymbolRange<W::S>, W::S>> = Box::new(m);
        let dfa = DfaCompiler::build(boxed, SymbolRangeDfaBuilder::new());
        let terms: Vec<Term> = input.iter().map(|s| s.term()).collect();
        let at = sp.paths(&terms);
        let acc: Vec<B> = (0..=*len).map(|l| B::any(sp.outs.iter().map(|(s, _)| at[l][*s as usize].clone()))).collect();
        w.branch(|w| for l in (0..=*len).rev() {
            let part = input[..l].to_vec();
            let r = run_match(&dfa, &part);
            w.note(|| format!("on the first {} symbols: {:?}", l, r));
            w.observe(opt_hash(r.as_ref().map(|r| r.0)));
            w.require(&format!("the longest prefix some path accepts ({} symbols)", l), longest(&acc[..=l], r.as_ref().map(|r| r.0)));
            if let Some((k, out)) = r {
                let out = out.term();
                let one = B::any(sp.outs.iter().map(|(s, t)| at[k][*s as usize].and(&B::eq(out, *t))));
                let least = B::all(sp.outs.iter().map(|(s, t)| at[k][*s as usize].not().or(&if twin() { B::lt(out, *t) } else { B::le(out, *t) })));
                w.require("the output is the lowest of all states reachable on that prefix", one.and(&least));
            }
        });
    }
}

// ------------------------------------------------------------------------------------- C04
/// The construction calls themselves are symbolic: kinds and states are chosen by the solver-explored path
pub struct C04 { pub shapes: Vec<(usize, usize)>, pub seeds: Vec<u64>, pub fixed: Vec<Graph>, pub joins: Vec<(usize, usize)>, pub chains: Vec<usize> }
impl C04 {
    pub fn new(t: Tier, seed: u64) -> C04 {
        match t {
            Tier::Quick => C04 { shapes: vec![(0, 1), (3, 2), (2, 3)], seeds: vec![seed], fixed: fixed(false), joins: vec![(3, 3), (4, 3)], chains: vec![3, 4, 5] },
            Tier::Thorough => C04 { shapes: vec![(0, 1), (4, 2), (3, 3), (2, 5)], seeds: vec![seed, seed + 1], fixed: fixed(true), joins: vec![(3, 5), (4, 4), (5, 3)], chains: vec![3, 4, 5, 6] },
        }
    }
}
fn fixed(th: bool) -> Vec<Graph> { big_joins().into_iter().chain(large_graphs(th).into_iter().map(|g| g.0)).collect() }
fn big_joins() -> Vec<Graph> {
    vec![
        vec![J(0, 1), J(1, 2), J(2, 3), J(3, 0), T(0, 4), T(1, 4), T(2, 4), T(3, 4), O(2)], vec![T(3, 0), J(0, 1), J(1, 3), O(3), T(1, 2), J(2, 0)],
        vec![J(0, 9), T(9, 1), O(9)], vec![O(5), J(4, 5), J(3, 4), J(2, 3), J(1, 2), J(0, 1)], vec![J(0, 0), T(0, 0), T(0, 0)], vec![J(0, 1), J(1, 0), J(0, 1), T(0, 1), T(1, 0), O(0), O(1)],
        vec![J(0, 2), T(2, 3), J(0, 1), T(1, 3), J(1, 2), O(3), J(3, 0)], vec![C(6), J(2, 6), O(6)], vec![T(0, 1), T(0, 1), J(2, 0), J(3, 0), J(1, 2), J(1, 3)],
        vec![J(0, 1), J(0, 2), J(1, 3), J(2, 3), T(3, 4), O(3)],
    ].into_iter().map(|ops| Graph { ops }).collect()
}
fn check_joins<W: World>(w: &mut W, m: &dyn StateMachine<SymbolRange<W::S>, W::S>, sp: &Spec) {
    let n = m.count_states();
    w.require("one more state than the highest mentioned", B::c(n == sp.top + 1));
    for s in 0..=sp.top {
        let cl = sp.closure(s);
        let cl = if twin() { vec![s] } else { cl };
        let want: Vec<(Rt, u32)> = sp.trans.iter().filter(|t| cl.contains(&t.0)).map(|t| (t.1, t.2)).collect();
        let got: Vec<(Rt, u32)> = m.get_transitions_for_state(s).iter().map(|(r, t)| (rt(r), *t)).collect();
        w.observe(got.len() as u64);
        // the same transitions (how often one that was added twice is listed carries no meaning)
        let ok = B::c(got.iter().all(|g| want.contains(g)) && want.iter().all(|x| got.contains(x)));
        w.note(|| format!("state {}: {:?}", s, got));
        w.require(&format!("state {} has its own transitions and those of the states joined to it, no others", s), ok);
        let out = m.output_symbol_for_state(s).map(|o| o.term());
        let own = sp.outs.iter().find(|o| o.0 == s).map(|o| o.1);
        let via: Vec<Term> = sp.outs.iter().filter(|o| cl.contains(&o.0)).map(|o| o.1).collect();
        w.observe(out.is_some() as u64);
        let many: Vec<Term> = m.output_symbols_for_state(s).iter().map(|o| o.term()).collect();
        w.require(&format!("all outputs of state {}", s), B::c(many.iter().all(|t| via.contains(t)) && via.iter().all(|t| many.contains(t))));
        w.require(&format!("output of state {}", s), match (out, own) {
            (Some(o), Some(t)) => B::eq(o, t),
            (Some(o), None) => B::any(via.iter().map(|t| B::eq(o, *t))),
            (None, _) => B::c(via.is_empty()),
        });
    }
}
impl C04 { fn families(&self) -> usize { self.shapes.len() + self.fixed.len() + self.joins.len() + 2 * self.chains.len() } }
impl Harness for C04 {
    fn ncases(&self) -> usize { self.families() * self.seeds.len() }
    fn describe(&self, c: usize) -> String {
        let mut c = c % self.families();
        if c < self.shapes.len() { let (k, n) = self.shapes[c]; return format!("every sequence of {} construction calls on {} states", k, n); }
        c -= self.shapes.len();
        if c < self.fixed.len() { return format!("machine {}", self.fixed[c].text()); }
        c -= self.fixed.len();
        if c < self.joins.len() { let (n, k) = self.joins[c]; return format!("every sequence of {} joins between {} states", k, n); }
        c -= self.joins.len();
        format!("every chain of {} joins through differently numbered states, joined {}", self.chains[c / 2], if c % 2 == 0 { "front to back" } else { "back to front" })
    }
    fn hash_seed(&self, c: usize) -> u64 { self.seeds[c / self.families()] }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let mut c = case % self.families();
        let mut ops = vec![];
        if c < self.shapes.len() {
            let (k, n) = self.shapes[c];
            for _ in 0..k {
                let kind = w.choose("call", 4);
                let a = w.choose("state", n) as u32;
                ops.push(match kind { 0 => T(a, w.choose("to", n) as u32), 1 => J(a, w.choose("to", n) as u32), 2 => O(a), _ => C(a) });
            }
        } else if c < self.shapes.len() + self.fixed.len() {
            ops = self.fixed[c - self.shapes.len()].ops.clone();
        } else if c < self.shapes.len() + self.fixed.len() + self.joins.len() {
            c -= self.shapes.len() + self.fixed.len();
            let (n, k) = self.joins[c];
            // a transition out of each state, an output in some
            for s in 0..n { ops.push(T(s as u32, n as u32)); }
            let o = w.choose("state with an output", n) as u32;
            ops.push(O(o));
            for _ in 0..k { let a = w.choose("from", n) as u32; let b = w.choose("to", n) as u32; ops.push(J(a, b)); }
        } else {
            c -= self.shapes.len() + self.fixed.len() + self.joins.len();
            let n = self.chains[c / 2];
            let mut left: Vec<u32> = (0..=n as u32).collect();
            let mut chain = vec![];
            while !left.is_empty() { let i = if left.len() > 1 { w.choose("next in the chain", left.len()) } else { 0 }; chain.push(left.remove(i)); }
            let mut joins: Vec<Op> = (0..n).map(|i| J(chain[i], chain[i + 1])).collect();
            if c % 2 == 1 { joins.reverse(); }
            ops = joins;
            ops.push(T(chain[n], chain[0]));
            ops.push(O(chain[n]));
        }
        let (m, sp) = Graph { ops }.make(w);
        // read directly, shared or boxed
        match case % 3 {
            0 => check_joins(w, &m, &sp),
            1 => { let m: std::rc::Rc<dyn StateMachine<SymbolRange<W::S>, W::S>> = std::rc::Rc::new(m); check_joins(w, &m, &sp) }
            _ => { let m: Box<dyn StateMachine<SymbolRange<W::S>, W::S>> = Box::new(m); check_joins(w, &m, &sp) }
        }
    }
}
