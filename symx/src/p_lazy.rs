//! C22: how far the source is read
use crate::engine::*;
use crate::explore::Harness;
use crate::expr::*;
use crate::p_pattern::{inputs, Case, large_sets, woven_pats, TokCase, C01};
use crate::p_token::{build, token_sets};
use crate::pat::*;
use crate::shapes::*;
use crate::{twin, Tier};
use concordance::*;
use std::cell::Cell;
use std::rc::Rc;

/// A source that counts how often it was asked
pub struct Count<S> { pub data: Vec<S>, pub asked: Rc<Cell<usize>> }
impl<S: Clone> SymbolReader<S> for Count<S> {
    fn next_symbol(&mut self) -> Option<S> { let k = self.asked.get(); self.asked.set(k + 1); self.data.get(k).cloned() }
}
/// some part of the pattern matches nothing at all
fn void<S: Symbol>(p: &Pattern<S>) -> bool {
    match p {
        Pattern::Repeat(r, x) => r.start >= r.end || void(x),
        Pattern::RepeatInfinite(_, x) => void(x),
        Pattern::MatchAll(v) => v.iter().any(void),
        Pattern::MatchAny(v) => v.is_empty() || v.iter().any(void),
        _ => false,
    }
}
/// v[i][j]: "input[i..j] can be continued to a word of the language", for patterns no part of which is void
fn viable<S: Symbol>(p: &Pattern<S>, inp: &[S]) -> Mat {
    let l = inp.len();
    let then = |m: &Mat, v: &Mat| cat(m, v);
    match p {
        Pattern::Epsilon => unit(l),
        Pattern::Match(s) => { let mut r = zero(l); for k in 0..=s.len() { r = alt(&r, &meaning(&Pattern::Match(s[..k].to_vec()), inp)); } r }
        Pattern::MatchRange(..) => alt(&unit(l), &meaning(p, inp)),
        Pattern::RepeatInfinite(_, x) => { let (m, v) = (meaning(x, inp), viable(x, inp)); alt(&unit(l), &then(&kleene(&m), &v)) }
        Pattern::Repeat(r, x) => {
            // one copy more than it accepts may be followed: up to end copies, and the last of them may be unfinished
            let (m, v) = (meaning(x, inp), viable(x, inp));
            let (mut acc, mut done) = (unit(l), unit(l));
            for _ in 0..r.end { acc = alt(&acc, &then(&done, &v)); done = cat(&done, &m); }
            acc
        }
        Pattern::MatchAll(xs) => { let (mut acc, mut done) = (unit(l), unit(l)); for x in xs { acc = alt(&acc, &then(&done, &viable(x, inp))); done = cat(&done, &meaning(x, inp)); } acc }
        Pattern::MatchAny(xs) => { let mut r = zero(l); for x in xs { r = alt(&r, &viable(x, inp)); } r }
    }
}
fn any_viable<S: Symbol>(pats: &[Pattern<S>], inp: &[S]) -> Mat { let mut r = zero(inp.len()); for p in pats { r = alt(&r, &viable(p, inp)); } r }
/// what was read may be read by a matcher that began at one of these positions
fn may_read(via: &Mat, from: std::ops::RangeInclusive<usize>, asked: usize) -> B {
    if asked == 0 { return B::t(); }
    let seen = asked - 1;
    B::any(from.map(|p| if seen <= p { B::c(seen == p) } else if seen >= via.len() { B::f() } else if twin() { via[p].get(seen + 1).cloned().unwrap_or_else(B::t) } else { via[p][seen].clone() }))
}
fn hollow(s: &Sh) -> bool {
    match s { Sh::Rep(a, b, x) => a >= b || hollow(x), Sh::Inf(_, x) | Sh::Tok(_, x) => hollow(x), Sh::All(v) => v.iter().any(hollow), Sh::Any(v) => v.is_empty() || v.iter().any(hollow), _ => false }
}

pub struct C22 { pub single: Vec<Case>, pub sets: Vec<(TokCase, usize)> }
impl C22 {
    pub fn new(t: Tier, seed: u64) -> C22 {
        let th = matches!(t, Tier::Thorough);
        let single: Vec<Case> = C01::new(t, seed).cases.into_iter().filter(|c| !hollow(&c.sh)).collect();
        let mut sets: Vec<(TokCase, usize)> = vec![];
        for (pats, len) in token_sets(th) { sets.push((TokCase { pats, len, seed, tpl: String::new() }, if th { 4 } else { 3 })); }
        let ws = woven_pats();
        for p in &ws { for q in &ws { sets.push((TokCase { pats: vec![p.clone(), q.clone()], len: if th { 5 } else { 4 }, seed, tpl: String::new() }, if th { 3 } else { 2 })); } }
        for s in large_sets(th) { let c = TokCase::of(s, seed); let n = c.len; if n > 200 { continue; } sets.push((c.clone(), 3)); if n <= 80 { sets.push((c, 0)); } }
        sets.retain(|c| !c.0.pats.iter().any(hollow));
        C22 { single, sets }
    }
}
impl Harness for C22 {
    fn ncases(&self) -> usize { self.single.len() + self.sets.len() }
    fn describe(&self, c: usize) -> String {
        if c < self.single.len() { let c = &self.single[c]; return format!("how far matching {} reads inputs of length <= {}", c.sh.text(), c.len); }
        let (c, k) = &self.sets[c - self.single.len()];
        if *k == 0 { format!("how far iterating tokens {} reads inputs of length {}", c.text(), c.len) } else { format!("how far tokenizing with {} reads inputs of length {}, {} calls", c.text(), c.len, k) }
    }
    fn hash_seed(&self, c: usize) -> u64 { self.single.get(c).map(|c| c.seed).unwrap_or_else(|| self.sets[0].0.seed) }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        if case < self.single.len() {
            let c = &self.single[case];
            let pat = c.sh.make(w);
            let input = inputs(w, c.len);
            w.note(|| format!("pattern {:?} input {:?}", pat, input));
            if void(&pat) { return; }
            let via = viable(&pat, &input);
            let dfa: SymbolRangeDfa<W::S, ()> = (&pat as &dyn ToPattern<W::S>).prepare_to_match();
            w.branch(|w| for l in (0..=c.len).rev() {
                let asked = Rc::new(Cell::new(0));
                let mut src = Count { data: input[..l].to_vec(), asked: asked.clone() };
                let r = match match_pattern(dfa.start(), &mut src) { Accept(n, _) => n + 1, _ => 0 };
                w.note(|| format!("on {} symbols: result {}, source asked {} times", l, r, asked.get()));
                w.observe((r * 100 + asked.get()) as u64);
                w.require("nothing is read beyond the end, and the end once", B::c(asked.get() <= l + 1));
                w.require("nothing is read once no match can be longer", may_read(&via, 0..=0, asked.get()));
            });
            return;
        }
        let (c, calls) = &self.sets[case - self.single.len()];
        let mut b = build(w, &c.pats);
        let input = c.input(w, &mut b.pool);
        w.note(|| format!("input {:?}", input));
        let via = any_viable(&b.pats, &input);
        w.branch(|w| {
            let asked = Rc::new(Cell::new(0));
            let src = Count { data: input.clone(), asked: asked.clone() };
            let mut tk = if case % 2 == 1 { Tokenizer::new(src, b.dfa.clone()) } else { Tokenizer::new_prepared(src, &b.dfa) };
            w.require("nothing is read before it is asked for", B::c(asked.get() == 0));
            let n = input.len();
            if *calls == 0 {
                for _ in 0..=n {
                    let (pos, before) = (tk.get_source_position(), asked.get());
                    let item = Iterator::next(&mut tk);
                    let end = item.is_none();
                    w.note(|| format!("item {:?}, source asked {} times", item, asked.get()));
                    w.observe(asked.get() as u64);
                    let upto = item.map(|i| i.0.start).unwrap_or(n).min(n);
                    w.require("the end is seen once", B::c(asked.get() <= n + 1));
                    if asked.get() > before { w.require("a token is found without reading once no match can be longer", may_read(&via, pos.min(upto)..=upto, asked.get())); }
                    if end { return; }
                }
                return;
            }
            for _ in 0..*calls {
                let (pos, before) = (tk.get_source_position(), asked.get());
                if w.choose("call", 2) == 0 {
                    let r = tk.next_token();
                    w.note(|| format!("next_token at {}: {:?}, source asked {} times", pos, r, asked.get()));
                    if asked.get() > before { w.require("a token is found without reading once no match can be longer", may_read(&via, pos..=pos, asked.get())); }
                } else {
                    let r = tk.skip_input();
                    w.note(|| format!("skip_input at {}: {:?}, source asked {} times", pos, r, asked.get()));
                    if asked.get() > before { w.require("skipping reads one symbol at most", B::c(asked.get() == pos + 1)); }
                }
                w.observe((asked.get() * 100 + tk.get_source_position()) as u64);
                w.require("the end is seen once", B::c(asked.get() <= n + 1));
            }
        });
    }
}
