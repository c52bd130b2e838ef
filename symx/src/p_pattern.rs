//! C01 C02 C18 C19 C20 C21: compiled patterns and token matchers
use crate::engine::*;
use crate::explore::Harness;
use crate::expr::*;
use crate::pat::*;
use crate::shapes::*;
use crate::{twin, Tier};
use concordance::*;

pub struct Case { pub sh: Sh, pub len: usize, pub seed: u64 }

fn dedup(v: Vec<Case>) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    let mut seen = std::collections::HashSet::new();
    for c in v { if seen.insert(format!("{}/{}/{}", c.sh.text(), c.len, c.seed)) { out.push(c) } }
    out
}

pub fn inputs<W: World>(w: &mut W, n: usize) -> Vec<W::S> { (0..n).map(|_| w.sym("in")).collect() }

pub fn opt_hash(k: Option<usize>) -> u64 { match k { None => 7, Some(k) => 100 + k as u64 } }

/// the acceptance row from position 0; the twin gets it slightly wrong on purpose
pub fn accept_row<S: Symbol>(p: &Pattern<S>, inp: &[S]) -> Vec<B> {
    let m = meaning(p, inp);
    m[0].clone()
}

// ------------------------------------------------------------------------------------- C01
pub struct C01 { pub cases: Vec<Case> }
impl C01 {
    pub fn new(t: Tier, seed: u64) -> C01 {
        let mut v = vec![];
        let mut put = |sh: Sh, len: usize| v.push(Case { sh, len, seed });
        match t {
            Tier::Quick => {
                for s in sized(1, 4, true).into_iter().chain(sized(2, 4, true)) { let l = if s.vars() <= 2 { 4 } else { 3 }; put(s, l); }
                for s in sized(3, 3, false) { put(s, 3); }
                for s in picked() { let l = if s.vars() <= 3 { 4 } else if s.vars() <= 4 { 3 } else { 2 }; put(s, l); }
                put(any(&[Sh::Rng, Sh::Rng, Sh::Rng]), 1);
                for n in 1..=3 { for s in shared(n, 3) { put(s, 5); } }
                for s in shared(4, 2) { put(s, 4); }
                for s in woven() { let l = if s.letters() <= 2 { 6 } else { 4 }; put(s, l); }
                for (s, l) in large(false) { put(s, l); }
            }
            Tier::Thorough => {
                for s in sized(1, 4, true).into_iter().chain(sized(2, 4, true)) { put(s, 5); }
                for s in sized(3, 5, true) { let l = if s.vars() <= 3 { 4 } else { 3 }; put(s, l); }
                for s in sized(4, 3, false) { put(s, 3); }
                for s in picked() { let l = if s.vars() <= 3 { 5 } else if s.vars() <= 4 { 4 } else { 3 }; put(s, l); }
                for s in heavy() { put(s, 2); }
                for n in 1..=3 { for s in shared(n, 3) { put(s, 6); } }
                for s in shared(4, 3) { put(s, 6); }
                for s in shared(5, 2) { put(s, 6); }
                for s in woven() { let l = if s.letters() <= 2 { 9 } else { 6 }; put(s, l); }
                for (s, l) in large(true) { put(s, l); }
            }
        }
        C01 { cases: dedup(v) }
    }
}
impl Harness for C01 {
    fn ncases(&self) -> usize { self.cases.len() }
    fn describe(&self, c: usize) -> String { let c = &self.cases[c]; format!("pattern {} on every input of length <= {}", c.sh.text(), c.len) }
    fn hash_seed(&self, c: usize) -> u64 { self.cases[c].seed }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let c = &self.cases[case];
        let pat = c.sh.make(w);
        let input = inputs(w, c.len);
        w.note(|| format!("pattern {:?} input {:?}", pat, input));
        let dfa = pat.clone().prepare_to_match();
        let acc = accept_row(&pat, &input);
        w.branch(|w| for l in (0..=c.len).rev() {
            let part = input[..l].to_vec();
            let k = matches_prepared(&part, &dfa);
            w.note(|| format!("matches on first {} symbols: {:?}", l, k));
            w.observe(opt_hash(k));
            let k2 = if twin() && l == c.len && l > 1 { k.map(|k| if k == 1 { 0 } else { k }) } else { k };
            w.require(&format!("longest prefix of the input of length {} is {:?}", l, k), longest(&acc[..=l], k2));
        });
    }
}

// ------------------------------------------------------------------------------------- C02
/// `tpl`: the input, a letter for the shared symbol of that name and ? for any symbol; empty: `len` times ?
#[derive(Clone)]
pub struct TokCase { pub pats: Vec<Sh>, pub len: usize, pub seed: u64, pub tpl: String }
impl TokCase {
    pub fn of((pats, tpl): (Vec<Sh>, String), seed: u64) -> TokCase { TokCase { pats, len: tpl.chars().count(), seed, tpl } }
    pub fn text(&self) -> String { format!("{}{}", self.pats.iter().map(|p| p.text()).collect::<Vec<_>>().join(" , "), if self.tpl.is_empty() { "".into() } else { format!(" with inputs {}", self.tpl) }) }
    pub fn input<W: World>(&self, w: &mut W, pool: &mut Pool<W::S>) -> Vec<W::S> {
        if self.tpl.is_empty() { return inputs(w, self.len); }
        given(w, pool, &self.tpl)
    }
}
/// a letter for the shared symbol of that name and ? for any symbol
pub fn given<W: World>(w: &mut W, pool: &mut Pool<W::S>, tpl: &str) -> Vec<W::S> { tpl.chars().map(|b| if b == '?' { w.sym("in") } else { pool.get(w, (b as u32 - 'a' as u32) as u8) }).collect() }
/// long tokens, many tokens, look-ahead far beyond the match, over inputs that are given but for a few symbols
pub fn large_sets(th: bool) -> Vec<(Vec<Sh>, String)> {
    let ab = || rs(b'a', b'b');
    let a = |n: usize| "a".repeat(n);
    let word = |n: usize| -> String { (0..n).map(|i| b"abaabbab"[i * 5 / 3 % 8] as char).collect() };
    let mut v = vec![
        (vec![sy("a"), sy(&(a(12) + "b"))], a(13) + "??"), (vec![sy("a"), sy(&(a(7) + "b"))], a(5) + "?" + &a(8) + "?"), (vec![sy("a"), all(&[star(ab()), sy("c")])], a(18) + "?"),
        (vec![sy("ab"), sy(&("ab".repeat(8) + "c"))], "ab".repeat(8) + "?a?"), (vec![plus(ab()), sy("abababab")], "abab?bab?".into()), (vec![Sh::Inf(9, Box::new(sy("a"))), sy("a")], a(8) + "?" + &a(9) + "?"), (vec![rep(0, 17, sy("a")), sy("b")], a(17) + "?b"),
        ((0..10).map(|i| Sh::Sy(vec![i])).collect(), "jihgfedcba?".into()), ((0..9).map(|i| sy(&word(i + 1))).collect(), word(10) + "?" + &word(4)), ((0..4).map(|i| Sh::Rs(i, i + 2)).collect(), "af?".into()),
        ((0..9).map(|i| all(&[Sh::Sy(vec![i]), star(sy("a"))])).collect(), "caadaa?".into()), (vec![sy(&word(16)), sy(&word(5)), sy("a")], word(15) + "?" + "b"), (vec![sy("b"), sy(&(a(16) + "bb"))], "?".to_string() + &a(16) + "??"),
        (vec![all(&[Sh::Inf(5, Box::new(sy("a"))), sy("c")]), plus(ab())], a(9) + "?c?"), (vec![any(&[sy("a"), sy(&a(9)), sy(&a(18))])], a(20) + "?"), (vec![sy("ab")], "?".to_string() + &"ab".repeat(9) + "?"),
    ];
    // what is read beyond the last match, and what lies before the first
    for n in if th { vec![24, 40, 70, 130] } else { vec![24, 40] } {
        v.push((vec![sy("a"), all(&[sy("a"), star(sy("b")), sy("c")])], "a".to_string() + &"b".repeat(n) + "?"));
        v.push((vec![sy("a")], "b".repeat(n) + "?a?"));
        v.push((vec![sy("a"), sy(&("b".repeat(n + 2) + "c"))], "b".repeat(n + 1) + "a?"));
    }
    // many tokens for the same symbols: which is the lowest does not depend on where it stands
    for n in if th { vec![9u8, 17, 33, 65] } else { vec![9, 17, 33] } {
        let ranked = |f: &dyn Fn(u8) -> u8, x: Sh| -> Vec<Sh> { (0..n).map(|i| Sh::Tok(f(i), Box::new(x.clone()))).collect() };
        v.push((ranked(&|i| n - 1 - i, sy("a")), "a?".into()));
        v.push((ranked(&|i| i, ab()), "b?".into()));
        v.push((ranked(&|i| (i + n / 2) % n, plus(sy("a"))), "aa?".into()));
        v.push(((0..n).map(|i| Sh::Tok((i + 3) % n, Box::new(if i % 2 == 0 { sy("a") } else { star(ab()) }))).collect(), "a?".into()));
    }
    // states with many transitions
    let some = |n: u8| [n - 1, n / 2, 31, 32, 33].iter().map(|i| letter(*i as usize)).collect::<String>() + "?";
    for n in if th { vec![40u8, 58] } else { vec![40] } { v.push(((0..n).map(|i| Sh::Tok(i, Box::new(Sh::Sy(vec![i])))).collect(), some(n))); }
    for n in if th { vec![70u8, 100, 118] } else { vec![70] } { v.push(((0..3).map(|k| any(&(0..n).filter(|i| i % 3 == k).map(|i| Sh::Sy(vec![i, k])).collect::<Vec<_>>())).collect(), some(n))); }
    // many states
    for n in if th { vec![130, 300, 600] } else { vec![130, 300] } { v.push((vec![sy(&word(n)), sy("ab")], word(n - 1) + "?" + "b")); }
    if th { v.extend(vec![
        (vec![sy("a"), sy(&(a(33) + "b"))], a(34) + "?"), (vec![sy("a"), all(&[star(ab()), sy("c")])], a(16) + "?" + &a(17) + "?"), ((0..20).map(|i| Sh::Sy(vec![i])).collect(), "tsa?".into()), ((0..17).map(|i| sy(&word(i + 1))).collect(), word(18) + "?" + &word(6)),
        (vec![any(&[sy("a"), sy(&a(17)), sy(&a(33))])], a(35) + "?"), (vec![sy("ab"), sy(&("ab".repeat(16) + "c"))], "ab".repeat(16) + "?a?"), (vec![Sh::Inf(17, Box::new(sy("a"))), sy("a")], a(16) + "?" + &a(17) + "?"),
    ]); }
    v
}
pub struct C02 { pub cases: Vec<TokCase> }
pub fn small_pats() -> Vec<Sh> { vec![Sh::Rng, Sh::Lit(1), Sh::Lit(2), Sh::Eps, star(Sh::Lit(1)), star(Sh::Rng), opt(Sh::Lit(1)), plus(Sh::Rng), all(&[Sh::Lit(1), star(Sh::Rng)]), any(&[Sh::Lit(1), Sh::Eps])] }
/// patterns over symbols the token set shares
pub fn woven_pats() -> Vec<Sh> {
    vec![sy("a"), sy("ab"), star(sy("a")), rs(b'a', b'b'), plus(rs(b'a', b'c')), sy("aa"), any(&[sy("a"), sy("ab")]), all(&[sy("a"), opt(sy("b"))]), rep(1, 3, sy("a")), sy("ba"), all(&[star(rs(b'a', b'b')), sy("a")]), sy("b"), Sh::Eps, all(&[sy("a"), star(rs(b'b', b'c'))])]
}
impl C02 {
    pub fn new(t: Tier, seed: u64) -> C02 {
        let mut v = vec![];
        let ps = small_pats();
        let thorough = matches!(t, Tier::Thorough);
        let seeds: Vec<u64> = if thorough { vec![seed, seed + 1, seed + 2] } else { vec![seed] };
        for &sd in &seeds {
            v.push(TokCase { pats: vec![], len: 1, seed: sd, tpl: String::new() });
            for p in &ps { v.push(TokCase { pats: vec![p.clone()], len: 2, seed: sd, tpl: String::new() }); }
            for p in &ps { for q in &ps {
                let vars = p.vars() + q.vars();
                let len = if thorough { if vars <= 3 { 4 } else { 3 } } else if vars <= 2 { 3 } else { 2 };
                v.push(TokCase { pats: vec![p.clone(), q.clone()], len, seed: sd, tpl: String::new() });
            } }
            let third: Vec<Sh> = vec![Sh::Rng, Sh::Lit(1), Sh::Eps, star(Sh::Lit(1))];
            for p in &third { for q in &third { for r in &third {
                let vars = p.vars() + q.vars() + r.vars();
                if vars > if thorough { 6 } else { 3 } { continue; }
                v.push(TokCase { pats: vec![p.clone(), q.clone(), r.clone()], len: if vars > 4 { 1 } else { 2 }, seed: sd, tpl: String::new() });
            } } }
            for ps in [vec![Sh::Lit(2), Sh::Lit(1), star(Sh::Rng)], vec![Sh::Lit(2), Sh::Lit(2)], vec![any(&[Sh::Lit(2), Sh::Lit(1)]), plus(Sh::Lit(1))]] { v.push(TokCase { pats: ps, len: 2, seed: sd, tpl: String::new() }); }
            for n in [3, 4] { v.push(TokCase { pats: vec![star(Sh::Lit(1)); n], len: 1, seed: sd, tpl: String::new() }); v.push(TokCase { pats: vec![Sh::Eps; n], len: 0, seed: sd, tpl: String::new() }); }
            let ws = woven_pats();
            let l2 = if thorough { 5 } else { 4 };
            for p in &ws { for q in &ws { v.push(TokCase { pats: vec![p.clone(), q.clone()], len: l2, seed: sd, tpl: String::new() }); } }
            let few: Vec<Sh> = if thorough { ws.clone() } else { ws.iter().step_by(2).cloned().collect() };
            for p in &few { for q in &few { for r in &few { if p != q && q != r { v.push(TokCase { pats: vec![p.clone(), q.clone(), r.clone()], len: 3, seed: sd, tpl: String::new() }); } } } }
            for n in [4, 5] { v.push(TokCase { pats: ws.iter().cycle().skip(n).step_by(3).take(n).cloned().collect(), len: 3, seed: sd, tpl: String::new() }); v.push(TokCase { pats: ws.iter().rev().take(n).cloned().collect(), len: 3, seed: sd, tpl: String::new() }); }
            v.push(TokCase { pats: vec![sy("a"), sy("ab"), star(rs(b'a', b'b')), sy("abab"), plus(sy("ab"))], len: 5, seed: sd, tpl: String::new() });
            if thorough { v.push(TokCase { pats: vec![Sh::Lit(1); 4], len: 1, seed: sd, tpl: String::new() }); v.push(TokCase { pats: vec![star(Sh::Lit(1)); 5], len: 0, seed: sd, tpl: String::new() }); }
        }
        for s in large_sets(thorough) { v.push(TokCase::of(s, seed)); }
        C02 { cases: v }
    }
}
/// out is the least token among the patterns accepting exactly k symbols
pub fn token_ok<S: Symbol>(accs: &[Vec<B>], toks: &[S], k: usize, out: Term) -> B {
    let is_one = B::any(accs.iter().zip(toks).map(|(a, t)| a[k].and(&B::eq(out, t.term()))));
    let is_least = B::all(accs.iter().zip(toks).map(|(a, t)| a[k].not().or(&if twin() { B::lt(out, t.term()) } else { B::le(out, t.term()) })));
    is_one.and(&is_least)
}
pub fn union_row(accs: &[Vec<B>], n: usize) -> Vec<B> { (0..=n).map(|j| B::any(accs.iter().map(|a| a[j].clone()))).collect() }
pub fn run_match<S: Symbol, O: Symbol>(dfa: &SymbolRangeDfa<S, O>, input: &Vec<S>) -> Option<(usize, O)> {
    let mut rd = input.read_symbols();
    match match_pattern(dfa.start(), &mut rd) { Accept(n, o) => Some((n, o.clone())), Reject => None, More(_) => panic!("match_pattern returned More") }
}
impl Harness for C02 {
    fn ncases(&self) -> usize { self.cases.len() }
    fn describe(&self, c: usize) -> String { let c = &self.cases[c]; format!("token patterns {} on every input of length <= {}", c.text(), c.len) }
    fn hash_seed(&self, c: usize) -> u64 { self.cases[c].seed }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let c = &self.cases[case];
        let mut tm = TokenMatcher::new();
        let mut pats = vec![];
        let mut toks: Vec<W::S> = vec![];
        let (mut pool, mut ranks) = (Pool::new(), Pool::new());
        for sh in &c.pats {
            let p = sh.make_in(w, &mut pool);
            let t = sh.token(w, &mut ranks);
            tm.add_pattern(p.clone(), t.clone());
            w.note(|| format!("token {:?} for {:?}", t, p));
            pats.push(p);
            toks.push(t);
        }
        let input = c.input(w, &mut pool);
        w.note(|| format!("input {:?}", input));
        let dfa: SymbolRangeDfa<W::S, W::S> = tm.prepare_to_match();
        let accs: Vec<Vec<B>> = pats.iter().map(|p| accept_row(p, &input)).collect();
        let acc = union_row(&accs, c.len);
        w.branch(|w| for l in (0..=c.len).rev() {
            let part = input[..l].to_vec();
            let r = run_match(&dfa, &part);
            w.note(|| format!("on the first {} symbols: {:?}", l, r));
            w.observe(opt_hash(r.as_ref().map(|r| r.0)));
            w.require(&format!("longest prefix of any pattern on {} symbols", l), longest(&acc[..=l], r.as_ref().map(|r| r.0)));
            if let Some((k, out)) = r { w.require("the reported token is the lowest of the patterns matching that prefix", token_ok(&accs, &toks, k, out.term())); }
        });
    }
}

// ------------------------------------------------------------------------------------- C18
#[derive(Clone)]
pub enum How { Append, Or, AppendAppend(Sh), OrOr(Sh), AppendOr(Sh), OrAppend(Sh), Forever(u32), Repeat(u32, u32), Conv(u8), AppendConv(u8), Right(Sh), Chain(u8, u32, String), ForeverOn(u32, String), RepeatOn(u32, u32, String) }
pub struct C18 { pub cases: Vec<(Sh, Sh, How, usize)>, pub seed: u64 }
fn kinds() -> Vec<Sh> {
    vec![Sh::Eps, Sh::Lit(0), Sh::Lit(1), Sh::Lit(2), Sh::Rng, star(Sh::Lit(1)), plus(Sh::Rng), opt(Sh::Lit(1)), rep(1, 3, Sh::Lit(1)), all(&[Sh::Lit(1), Sh::Lit(1)]), all(&[]), all(&[Sh::Rng]),
         any(&[Sh::Lit(1), Sh::Lit(1)]), any(&[]), any(&[Sh::Lit(2), Sh::Eps]), all(&[Sh::Lit(1), any(&[Sh::Lit(1), Sh::Eps])]), any(&[all(&[Sh::Lit(1), Sh::Lit(1)]), Sh::Lit(1)])]
}
/// operands over shared symbols, of every kind the combinators could look at
fn operands() -> Vec<Sh> {
    let inf = |n, x| Sh::Inf(n, Box::new(x));
    let ab = || rs(b'a', b'b');
    vec![
        Sh::Eps, Sh::Lit(0), sy("a"), sy("b"), sy("ab"), sy("aa"), ab(), inf(0, sy("a")), inf(1, sy("a")), inf(2, sy("a")), inf(3, sy("a")), inf(1, ab()), inf(2, sy("ab")), inf(0, Sh::Eps), inf(2, Sh::Eps), inf(0, inf(1, sy("a"))), inf(1, inf(0, sy("a"))), inf(2, opt(sy("a"))), inf(0, sy("ab")),
        rep(0, 2, sy("a")), rep(0, 1, sy("a")), rep(0, 0, sy("a")), rep(1, 2, sy("a")), rep(1, 3, sy("a")), rep(2, 4, sy("a")), rep(3, 4, ab()), rep(3, 2, sy("a")), rep(2, 2, sy("b")), rep(0, 3, sy("ab")), rep(1, 3, Sh::Eps), rep(0, 2, star(sy("a"))), star(rep(2, 3, sy("a"))),
        all(&[]), all(&[sy("a")]), all(&[sy("a"), sy("b")]), all(&[sy("a"), star(sy("b"))]), all(&[ab(), sy("a")]), all(&[sy("a"), any(&[sy("b"), Sh::Eps])]), all(&[any(&[sy("a"), sy("b")]), sy("a")]), all(&[all(&[sy("a"), sy("b")]), sy("a")]),
        any(&[]), any(&[sy("a")]), any(&[sy("a"), sy("b")]), any(&[sy("ab"), sy("a")]), any(&[sy("a"), Sh::Eps]), any(&[all(&[sy("a"), sy("b")]), sy("b")]), any(&[any(&[sy("a"), sy("b")]), sy("ab")]), any(&[star(sy("a")), sy("b")]),
    ]
}
impl C18 {
    pub fn new(t: Tier, seed: u64) -> C18 {
        let mut v = vec![];
        let th = matches!(t, Tier::Thorough);
        let ab = || rs(b'a', b'b');
        for p in kinds() {
            for q in kinds() {
                let n = p.vars() + q.vars();
                let len = if th { if n <= 3 { 4 } else { 3 } } else if n <= 2 { 3 } else { 2 };
                v.push((p.clone(), q.clone(), How::Append, len));
                v.push((p.clone(), q.clone(), How::Or, len));
                if th {
                    for r in [Sh::Lit(1), all(&[Sh::Lit(1), Sh::Lit(0)]), any(&[Sh::Lit(1), Sh::Eps])] {
                        if p.vars() + q.vars() > 3 { continue; }
                        for h in [How::AppendAppend(r.clone()), How::OrOr(r.clone()), How::AppendOr(r.clone()), How::OrAppend(r.clone()), How::Right(r.clone())] { v.push((p.clone(), q.clone(), h, 3)); }
                    }
                }
            }
            for k in 0..4 { v.push((p.clone(), Sh::Eps, How::Forever(k), 3)); }
            for (a, b) in [(0, 0), (0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (0, 4), (3, 1)] { v.push((p.clone(), Sh::Eps, How::Repeat(a, b), 3)); }
            for c in 0..2 { v.push((p.clone(), Sh::Eps, How::Conv(c), 2)); }
        }
        let ops = operands();
        for (i, p) in ops.iter().enumerate() {
            for (j, q) in ops.iter().enumerate() {
                v.push((p.clone(), q.clone(), How::Append, 4));
                v.push((p.clone(), q.clone(), How::Or, if th { 4 } else { 3 }));
                let r = &ops[(i * 7 + j * 3) % ops.len()];
                let len = if th { 5 } else { 3 };
                for (n, h) in [How::AppendAppend(r.clone()), How::OrOr(r.clone()), How::AppendOr(r.clone()), How::OrAppend(r.clone()), How::Right(r.clone())].into_iter().enumerate() {
                    if th || (i + j) % 5 == n { v.push((p.clone(), q.clone(), h, len)); }
                }
            }
            for k in 0..5 { v.push((p.clone(), Sh::Eps, How::Forever(k), 5)); }
            for a in 0..4 { for b in 0..5 { v.push((p.clone(), Sh::Eps, How::Repeat(a, b), if th { 6 } else { 4 })); } }
        }
        // many calls, one on the result of the other
        for (p, q) in [(sy("a"), sy("b")), (sy("a"), sy("a")), (Sh::Lit(1), sy("a")), (opt(sy("a")), sy("a")), (ab(), sy("ab")), (star(sy("a")), sy("b")), (Sh::Eps, sy("a")), (any(&[sy("a"), sy("bb")]), all(&[sy("b"), opt(sy("a"))])), (plus(sy("a")), plus(sy("b"))), (plus(sy("a")), rs(b'b', b'c')), (any(&[sy("a"), sy("b")]), all(&[rs(b'a', b'b'), sy("c")]))] {
            for n in if th { vec![3, 5, 8, 9, 17, 33] } else { vec![3, 5, 9, 18] } {
                for k in 0..8 { v.push((p.clone(), q.clone(), How::Chain(k, if k >= 6 { n.min(5) } else { n }, String::new()), if k == 1 || k == 3 { 3 } else { 4 })); }
                for k in vec![1, 2] {
                    let (x, y) = match (p.sample(k), q.sample(k)) { (Some(x), Some(y)) => (x, y), _ => continue };
                    let words: Vec<&str> = (0..=n).map(|i| if i % 2 == 0 { &x[..] } else { &y[..] }).collect();
                    let len = words.concat().len();
                    for at in vec![0, len / 2, len.max(1) - 1] {
                        let with = |w: String| -> String { w.chars().enumerate().map(|(i, c)| if i == at { '?' } else { c }).chain("?".chars()).collect() };
                        let (there, back) = (with(words.concat()), with(words.iter().rev().cloned().collect()));
                        for (h, t) in [(0, &there), (2, &back), (4, &there), (5, &there)] { v.push((p.clone(), q.clone(), How::Chain(h, n, t.clone()), t.len())); }
                    }
                }
            }
        }
        // large operands, large counts
        let word = |n: usize| -> String { (0..n).map(|i| b"abaabbab"[i * 5 / 3 % 8] as char).collect() };
        let big: Vec<Sh> = vec![sy(&word(12)), sy(&word(if th { 140 } else { 70 })), all(&(0..20).map(|i| if i % 3 == 0 { ab() } else { sy(&word(i)[i / 2..]) }).collect::<Vec<_>>()), any(&(0..20).map(|i| sy(&word(i + 1))).collect::<Vec<_>>()), any(&(0..12).map(|i| all(&[sy("a"), star(Sh::Sy(vec![i]))])).collect::<Vec<_>>()), rep(9, 20, sy("a")), Sh::Inf(17, Box::new(sy("ab"))), sy("a"), any(&[sy("a"), sy("b")]), all(&[sy("b"), ab()])];
        for p in &big { for q in &big { for k in vec![0usize, 5, 9] {
            let (x, y) = match (p.sample(k), q.sample(k + 1)) { (Some(x), Some(y)) => (x, y), _ => continue };
            let with = |w: String, at: usize| -> String { w.chars().enumerate().map(|(i, c)| if i == at { '?' } else { c }).chain("?".chars()).collect() };
            let t = with(x.clone() + &y, if k == 0 { 0 } else if k == 5 { x.len() } else { x.len() + y.len() - 1 });
            for (h, t) in [(0, t), (1, with(x.clone(), k)), (3, with(y, k))] { let n = t.len(); v.push((p.clone(), q.clone(), How::Chain(h, 1, t), n)); }
        } } }
        for p in [sy("a"), ab(), sy("ab"), any(&[sy("a"), sy("bb")]), plus(sy("a")), opt(sy("b")), Sh::Eps] { for n in if th { vec![5u32, 8, 9, 16, 17, 33, 64, 65] } else { vec![5, 9, 17, 33] } {
            let w = |k: u32, j: usize| -> String { (0..k).map(|i| p.sample(1 + (i as usize + j) % 2).unwrap()).collect::<String>() };
            for (k, t) in [(n - 1, w(n - 1, 0) + "?"), (n, w(n, 1) + "??"), (n + 2, w(n, 0) + "?")] {
                v.push((p.clone(), Sh::Eps, How::ForeverOn(n, t.clone()), t.len()));
                v.push((p.clone(), Sh::Eps, How::RepeatOn(0, n, t.clone()), t.len()));
                v.push((p.clone(), Sh::Eps, How::RepeatOn(n, n + 1, t.clone()), t.len()));
                v.push((p.clone(), Sh::Eps, How::RepeatOn(n / 2, k, t.clone()), t.len()));
            }
        } }
        let few = [Sh::Lit(1), Sh::Rng, all(&[Sh::Lit(1), Sh::Eps]), any(&[Sh::Lit(1), Sh::Eps]), Sh::Eps];
        for p in &few { for q in &few { for r in &few {
            if p.vars() + q.vars() + r.vars() > 3 { continue; }
            for h in [How::AppendAppend(r.clone()), How::OrOr(r.clone()), How::AppendOr(r.clone()), How::OrAppend(r.clone()), How::Right(r.clone())] { v.push((p.clone(), q.clone(), h, if th { 4 } else { 3 })); }
        } } }
        for c in 2..8 { for n in 0..3 { v.push((Sh::Lit(n), Sh::Eps, How::Conv(c), n + 1)); } }
        for c in 0..5 { for p in &few { v.push((p.clone(), Sh::Lit(2), How::AppendConv(c), 3)); } }
        C18 { cases: v, seed }
    }
}
impl Harness for C18 {
    fn ncases(&self) -> usize { self.cases.len() }
    fn describe(&self, c: usize) -> String {
        let (p, q, h, l) = &self.cases[c];
        let (p, q) = (p.text(), q.text());
        let s = match h {
            How::Append => format!("{} append {}", p, q), How::Or => format!("{} or {}", p, q),
            How::AppendAppend(r) => format!("{} append {} append {}", p, q, r.text()), How::OrOr(r) => format!("{} or {} or {}", p, q, r.text()),
            How::AppendOr(r) => format!("({} append {}) or {}", p, q, r.text()), How::OrAppend(r) => format!("({} or {}) append {}", p, q, r.text()),
            How::Chain(k, n, tpl) => format!("{} and {}, {} calls one after the other{} ({})", p, q, n, if tpl.is_empty() { String::new() } else { format!(", inputs {}", tpl) }, ["append", "or", "append to the right", "or to the right", "append, or", "or, append", "repeat_forever", "repeat"][*k as usize]),
            How::ForeverOn(n, t) => format!("{} repeat_forever({}), inputs {}", p, n, t), How::RepeatOn(a, b, t) => format!("{} repeat({}..{}), inputs {}", p, a, b, t),
            How::Right(r) => format!("{} append ({} or {}) and {} or ({} append {})", p, q, r.text(), p, q, r.text()),
            How::Forever(n) => format!("{} repeat_forever({})", p, n), How::Repeat(a, b) => format!("{} repeat({}..{})", p, a, b),
            How::Conv(k) => format!("conversion {} of {}", k, p), How::AppendConv(k) => format!("{} append / or of a literal given as conversion {}", p, k),
        };
        format!("{} on every input of length <= {}", s, l)
    }
    fn hash_seed(&self, _c: usize) -> u64 { self.seed }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let (ps, qs, how, len) = &self.cases[case];
        let mut pool = Pool::new();
        let p = ps.make_in(w, &mut pool);
        let q = qs.make_in(w, &mut pool);
        let r = match how { How::AppendAppend(r) | How::OrOr(r) | How::AppendOr(r) | How::OrAppend(r) | How::Right(r) => r.make_in(w, &mut pool), _ => Pattern::Epsilon };
        let input = match how { How::Chain(_, _, tpl) | How::ForeverOn(_, tpl) | How::RepeatOn(_, _, tpl) if !tpl.is_empty() => given(w, &mut pool, tpl), _ => inputs(w, *len) };
        let (mp, mq, mr) = (meaning(&p, &input), meaning(&q, &input), meaning(&r, &input));
        let lits = |x: &Pattern<W::S>| match x { Pattern::Match(v) => v.clone(), _ => vec![] };
        w.note(|| format!("p {:?} q {:?} r {:?} input {:?}", p, q, r, input));
        let mut todo: Vec<(Pattern<W::S>, Mat)> = vec![];
        let (pc, qc, rc) = (p.clone(), q.clone(), r.clone());
        match how {
            How::Append => { todo.push((p.append(q), cat(&mp, &mq))); }
            How::Or => { todo.push((p.or(q), alt(&mp, &mq))); }
            How::AppendAppend(_) => todo.push((p.append(q).append(r), cat(&cat(&mp, &mq), &mr))),
            How::OrOr(_) => todo.push((p.or(q).or(r), alt(&alt(&mp, &mq), &mr))),
            How::AppendOr(_) => todo.push((p.append(q).or(r), alt(&cat(&mp, &mq), &mr))),
            How::OrAppend(_) => todo.push((p.or(q).append(r), cat(&alt(&mp, &mq), &mr))),
            How::Right(_) => {
                todo.push((p.append(q.or(r)), cat(&mp, &alt(&mq, &mr))));
                todo.push((pc.clone().or(qc.clone().append(rc.clone())), alt(&mp, &cat(&mq, &mr))));
                todo.push((pc.clone().append(qc.append(rc)), cat(&mp, &cat(&mq, &mr))));
            }
            How::Forever(n) | How::ForeverOn(n, _) => todo.push((p.repeat_forever(*n), cat(&pow(&mp, *n), &kleene(&mp)))),
            How::Repeat(a, b) | How::RepeatOn(a, b, _) => { let mut acc = zero(*len); for n in *a..*b { acc = alt(&acc, &pow(&mp, n)); } todo.push((p.repeat(*a..*b), acc)); }
            How::Chain(k, n, _) => {
                let piece = |i: u32| if i % 2 == 0 { (q.clone(), mq.clone()) } else { (p.clone(), mp.clone()) };
                let (mut acc, mut m) = (p.clone(), mp.clone());
                for i in 0..*n {
                    let (x, mx) = piece(i);
                    let next = match (*k, i % 2) {
                        (0, _) | (4, 0) | (5, 1) => (acc.append(x), cat(&m, &mx)),
                        (1, _) | (4, _) | (5, _) => (acc.or(x), alt(&m, &mx)),
                        (2, _) => (x.append(acc), cat(&mx, &m)),
                        (3, _) => (x.or(acc), alt(&mx, &m)),
                        (6, _) => (acc.repeat_forever(i % 2), cat(&pow(&m, i % 2), &kleene(&m))),
                        (_, e) => { let mut s = zero(*len); for j in e..3 { s = alt(&s, &pow(&m, j)); } (acc.repeat(e..3), s) }
                    };
                    acc = next.0;
                    m = next.1;
                }
                todo.push((acc, m));
            }
            How::Conv(0) => { let b = Box::new(p); todo.push((exactly(b.clone()), mp.clone())); todo.push((b.to_pattern(), mp.clone())); todo.push((exactly(&*b), mp)); }
            How::Conv(1) => { todo.push((exactly(p.clone()), mp.clone())); todo.push((p.to_pattern(), mp.clone())); todo.push((exactly(&p), mp)); }
            How::Conv(2) => { let v = lits(&p); todo.push((exactly(&v), mp)); }
            How::Conv(3) => { let v = lits(&p); todo.push((v.to_pattern(), mp)); }
            How::Conv(4) => { let v = lits(&p); todo.push((exactly(&v[..]), mp)); }
            How::Conv(5) => { let v = lits(&p); todo.push((v[..].to_pattern(), mp)); }
            How::Conv(6) => { let b: Box<Pattern<W::S>> = Box::new(p); todo.push((b.into_pattern(), mp)); }
            How::Conv(_) => { let v = lits(&p); todo.push(((&v).into_pattern().repeat(1..2), mp)); }
            How::AppendConv(0) => { let v = lits(&q); todo.push((p.append(&v), cat(&mp, &mq))); todo.push((pc.or(&v), alt(&mp, &mq))); }
            How::AppendConv(1) => { let v = lits(&q); todo.push((p.append(&v[..]), cat(&mp, &mq))); todo.push((pc.or(&v[..]), alt(&mp, &mq))); }
            How::AppendConv(2) => { todo.push((p.append(&q), cat(&mp, &mq))); todo.push((pc.or(&q), alt(&mp, &mq))); }
            How::AppendConv(3) => { todo.push((p.append(Box::new(q.clone())), cat(&mp, &mq))); todo.push((pc.or(Box::new(q)), alt(&mp, &mq))); }
            How::AppendConv(_) => { let b = Box::new(q); todo.push((p.append(&b), cat(&mp, &mq))); todo.push((pc.or(&b), alt(&mp, &mq))); }
        }
        let mut machines = vec![];
        for (result, m) in todo {
            w.note(|| format!("combined into {:?}", result));
            // the combined pattern denotes the right language ...
            let got = meaning(&result, &input);
            let same = B::all((0..=*len).map(|j| got[0][j].iff(&if twin() && j == 1 { m[0][0].clone() } else { m[0][j].clone() })));
            w.require("the combined pattern accepts exactly the right prefixes", same);
            machines.push((result.prepare_to_match(), m));
        }
        // ... and matching it does what that says
        w.branch(|w| for (dfa, m) in &machines {
            let k = matches_prepared(&input, dfa);
            w.note(|| format!("matches: {:?}", k));
            w.observe(opt_hash(k));
            w.require("matching the combined pattern gives the longest prefix", longest(&m[0], k));
        });
    }
}

// ------------------------------------------------------------------------------------- C19
/// one_shot: also through the calls that compile and match in one go
pub struct Way { pub sh: Sh, pub len: usize, pub seed: u64, pub one_shot: bool }
pub struct C19 { pub cases: Vec<Way>, pub sets: Vec<TokCase>, pub graphs: Vec<(crate::p_nfa::Graph, usize)>, pub tables: Vec<crate::p_dfa::Table>, pub seed: u64 }
impl C19 {
    pub fn new(t: Tier, seed: u64) -> C19 {
        let mut v = vec![];
        let th = matches!(t, Tier::Thorough);
        let seeds: Vec<u64> = if th { vec![seed, seed + 1] } else { vec![seed] };
        for sd in seeds {
            let mut put = |sh: Sh, len: usize, one_shot: bool| v.push(Way { sh, len, seed: sd, one_shot });
            for s in sized(1, 4, true).into_iter().chain(sized(2, 4, true)) { let l = if th { 4 } else if s.vars() <= 2 { 3 } else { 2 }; put(s.clone(), l, false); put(s, if th { 3 } else { 1 }, true); }
            for s in sized(3, 3, false) { put(s, if th { 4 } else { 2 }, false); }
            for s in picked() { let n = s.vars(); put(s.clone(), if th { if n <= 4 { 4 } else { 2 } } else if n <= 3 { 3 } else { 1 }, false); if n <= 3 { put(s, 1, true); } }
            if th { for s in heavy() { put(s, 1, false); } }
            for n in 1..=3 { for s in shared(n, if th { 3 } else { 2 }) { put(s.clone(), if th { 5 } else { 3 }, false); if n < 3 || th { put(s, 2, true); } } }
            for s in woven() { put(s.clone(), if th { 5 } else { 3 }, false); put(s, if th { 3 } else { 1 }, true); }
        }
        let ws = woven_pats();
        let mut sets = vec![];
        for p in small_pats() { for q in small_pats() { if p.vars() + q.vars() <= if th { 4 } else { 2 } { sets.push(TokCase { pats: vec![p.clone(), q], len: 2, seed, tpl: String::new() }); } } }
        for p in &ws { for q in &ws { sets.push(TokCase { pats: vec![p.clone(), q.clone()], len: if th { 4 } else { 3 }, seed, tpl: String::new() }); } }
        for s in large_sets(th) { sets.push(TokCase::of(s, seed)); }
        let mut graphs = vec![];
        for g in crate::p_nfa::picked_graphs(th) { if g.ranges() <= if th { 3 } else { 2 } { graphs.push((g, 2)); } }
        graphs.extend(crate::p_nfa::large_graphs(th));
        let step = if th { 1 } else { 7 };
        for g in crate::p_nfa::woven_graphs(false).into_iter().step_by(step) { graphs.push((g, if th { 4 } else { 3 })); }
        let mut tables = crate::p_dfa::C10::new(Tier::Quick).tables;
        if !th { tables = tables.into_iter().enumerate().filter(|(i, t)| !t.shared && t.rows.iter().map(|r| r.0.len()).sum::<usize>() <= 3 || i % 9 == 0).map(|x| x.1).collect(); }
        C19 { cases: v, sets, graphs, tables, seed }
    }
}
/// steps the matcher by hand, finishing when the input ends
fn by_hand<S: Symbol, O: Symbol>(dfa: &SymbolRangeDfa<S, O>, input: &[S]) -> Option<(usize, O)> {
    let mut st = dfa.start();
    let mut it = input.iter();
    loop {
        st = match st {
            More(s) => match it.next() { Some(x) => s.next(x.clone()), None => s.finish() },
            Accept(n, o) => return Some((n, o.clone())),
            Reject => return None,
        }
    }
}
/// is_accepted says whether this very output was reported
fn accepted_as<W: World>(w: &mut W, dfa: &SymbolRangeDfa<W::S, W::S>, input: &Vec<W::S>, x: &W::S, what: &str) {
    if let Accept(n, o) = match_pattern(dfa.start(), &mut input.read_symbols()) {
        let (a, b) = (o.term(), x.term());
        let r = (Accept(n, o) as MatchAction<W::S, SymbolRangeState<W::S, W::S>>).is_accepted(x);
        w.require(&format!("is_accepted for {}", what), if r { B::eq(a, b) } else { B::eq(a, b).not() });
    }
}
/// runs a matcher in every way there is; every answer must be the same
fn all_ways<W: World>(w: &mut W, dfa: SymbolRangeDfa<W::S, W::S>, input: &Vec<W::S>) {
    w.note(|| format!("input {:?}", input));
    let recompile = |d: &SymbolRangeDfa<W::S, W::S>| -> SymbolRangeDfa<W::S, W::S> { let b: Box<dyn StateMachine<SymbolRange<W::S>, W::S>> = Box::new(d.clone()); b.prepare_to_match() };
    let again = recompile(&dfa);
    let twice = recompile(&again);
    let shared: std::rc::Rc<dyn StateMachine<SymbolRange<W::S>, W::S>> = std::rc::Rc::new(dfa.clone());
    let built = DfaCompiler::build(shared, SymbolRangeDfaBuilder::new());
    let copy = dfa.clone();
    let same_machine = dfa.clone().prepare_to_match();
    w.branch(|w| {
        let full = run_match(&dfa, input);
        let base = |r: &Option<(usize, W::S)>| r.as_ref().map(|x| (x.0, x.1.term()));
        let exp = base(&full);
        w.note(|| format!("match_pattern: {:?}", full));
        w.observe(opt_hash(exp.map(|x| x.0)));
        let same = |w: &mut W, label: &str, got: Option<(usize, Term)>| {
            let got = if twin() && label == "stepped by hand" { got.map(|x| (x.0 + 1, x.1)) } else { got };
            w.note(|| format!("{}: {:?}", label, got));
            let b = match (&exp, &got) { (None, None) => B::t(), (Some(a), Some(b)) => B::c(a.0 == b.0).and(&B::eq(a.1, b.1)), _ => B::f() };
            w.require(&format!("{} agrees with match_pattern", label), b);
        };
        same(w, "stepped by hand", base(&by_hand(&dfa, input)));
        for l in 0..input.len() { if l < 2 || input.len() < 6 { let part = input[l..].to_vec(); let _ = run_match(&dfa, &part); } let part = input[..l].to_vec(); let _ = by_hand(&dfa, &part); }
        same(w, "after other uses", base(&run_match(&dfa, input)));
        same(w, "a clone taken before", base(&run_match(&copy, input)));
        same(w, "prepared once more", base(&run_match(&same_machine, input)));
        same(w, "recompiled from the compiled machine", base(&run_match(&again, input)));
        same(w, "recompiled twice", base(&run_match(&twice, input)));
        same(w, "recompiled with the compiler", base(&run_match(&built, input)));
        let k = matches_prepared(input, &dfa);
        w.require("matches_prepared gives the same length", B::c(k == exp.map(|x| x.0)));
        if let Some((_, o)) = &full { accepted_as(w, &dfa, input, o, "the output reported"); if let Some(x) = input.first() { accepted_as(w, &dfa, input, x, "the first input symbol"); } }
        else if let Some(x) = input.first() { let r = match_pattern(dfa.start(), &mut input.read_symbols()).is_accepted(x); w.require("nothing is accepted by a rejecting run", B::c(!r)); }
    });
}
impl Harness for C19 {
    fn ncases(&self) -> usize { self.cases.len() + self.sets.len() + self.graphs.len() + self.tables.len() }
    fn describe(&self, c: usize) -> String {
        if let Some(c) = self.cases.get(c) { return format!("pattern {} run in every way{} on every input of length {}", c.sh.text(), if c.one_shot { ", one-shot calls too," } else { "" }, c.len); }
        let c = c - self.cases.len();
        if let Some(c) = self.sets.get(c) { return format!("matcher for tokens {} run in every way on every input of length {}", c.text(), c.len); }
        let c = c - self.sets.len();
        if let Some((g, l)) = self.graphs.get(c) { return format!("matcher for machine {} run in every way on every input of length {}", g.text(), l); }
        let t = &self.tables[c - self.graphs.len()];
        format!("matcher built from table {:?} run in every way on every input of length {}", t.rows, t.len)
    }
    fn hash_seed(&self, c: usize) -> u64 { self.cases.get(c).map(|c| c.seed).unwrap_or(self.seed) }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        if case >= self.cases.len() {
            let c = case - self.cases.len();
            if let Some(c) = self.sets.get(c) {
                let mut b = crate::p_token::build(w, &c.pats);
                let input = c.input(w, &mut b.pool);
                return all_ways(w, b.dfa, &input);
            }
            let c = c - self.sets.len();
            if let Some((g, len)) = self.graphs.get(c) {
                let (mut m, _) = g.make(w);
                m.fix_overlapping_ranges();
                let dfa = DfaCompiler::build(m, SymbolRangeDfaBuilder::new());
                let input = inputs(w, *len);
                return all_ways(w, dfa, &input);
            }
            let t = &self.tables[c - self.graphs.len()];
            let (dfa, _, _) = t.make(w);
            let input = inputs(w, t.len);
            return all_ways(w, dfa, &input);
        }
        let c = &self.cases[case];
        let pat = c.sh.make(w);
        let input = inputs(w, c.len);
        w.note(|| format!("pattern {:?} input {:?}", pat, input));
        let tok = w.cst(42);
        let nfa: Box<dyn StateMachine<SymbolRange<W::S>, W::S>> = pat.to_ndfa(tok.clone());
        let dfa = nfa.prepare_to_match();
        // the other ways to get a matcher for the pattern
        let tm = { let mut tm = TokenMatcher::new(); tm.add_pattern(pat.clone(), tok.clone()); tm };
        let token_ref: SymbolRangeDfa<W::S, W::S> = (&tm).prepare_to_match();
        let mut others: Vec<(&str, SymbolRangeDfa<W::S, W::S>)> = vec![("a token matcher of the one pattern", token_ref)];
        let owned: SymbolRangeDfa<W::S, W::S> = tm.prepare_to_match();
        others.push(("an owned token matcher", owned));
        let plain: Vec<(&str, SymbolRangeDfa<W::S, ()>)> = vec![("the pattern", pat.clone().prepare_to_match()), ("a reference to the pattern", (&pat as &dyn ToPattern<W::S>).prepare_to_match())];
        let one_shot = c.one_shot;
        let run = |w: &mut W| {
            let exp = run_match(&dfa, &input);
            w.note(|| format!("match_pattern: {:?}", exp));
            if let Some((_, t)) = &exp { w.require("the output is the one given", B::eq(t.term(), tok.term())); }
            w.observe(opt_hash(exp.as_ref().map(|x| x.0)));
            let len = exp.as_ref().map(|x| x.0);
            for (name, d) in &others {
                let r = run_match(d, &input);
                w.note(|| format!("{}: {:?}", name, r));
                let b = match (&exp, &r) { (None, None) => B::t(), (Some(a), Some(b)) => B::c(a.0 == b.0).and(&B::eq(a.1.term(), b.1.term())), _ => B::f() };
                w.require(&format!("{} agrees with match_pattern", name), b);
            }
            let same = |w: &mut W, name: &str, k: Option<usize>| {
                w.note(|| format!("{}: {:?}", name, k));
                let k = if twin() { k.map(|k| k.max(1)) } else { k };
                w.require(&format!("{} agrees with match_pattern", name), B::c(k == len));
            };
            for (name, d) in &plain { same(w, name, matches_prepared(&input, d)); }
            same(w, "consumed vector as source", { let mut r = VecReader::from_vec(input.clone()); match match_pattern(dfa.start(), &mut r) { Accept(n, _) => Some(n), _ => None } });
            if one_shot {
                same(w, "matches with the machine", matches(&input, dfa.clone()));
                same(w, "matches with the pattern", matches(&input, pat.clone()));
                same(w, "matches with a pattern reference", matches(&input, &pat as &dyn ToPattern<W::S>));
                same(w, "matches with the state machine", matches(&input, pat.to_ndfa(tok.clone())));
            }
        };
        if one_shot { run(w); } else { w.branch(run); }
    }
}

// ------------------------------------------------------------------------------------- C20
pub struct C20 { pub cases: Vec<TokCase>, pub units: Vec<Case> }
impl C20 {
    pub fn new(t: Tier, seed: u64) -> C20 {
        let th = matches!(t, Tier::Thorough);
        let mut v = vec![];
        for s in sized(1, 4, true).into_iter().chain(sized(2, 4, true)).chain(picked()) {
            let n = s.vars();
            v.push(TokCase { pats: vec![s], len: if th { if n <= 4 { 3 } else { 2 } } else if n <= 3 { 2 } else { 1 }, seed, tpl: String::new() });
        }
        for p in small_pats() { for q in small_pats() { if p.vars() + q.vars() <= if th { 4 } else { 2 } { v.push(TokCase { pats: vec![p.clone(), q], len: 2, seed, tpl: String::new() }); } } }
        if th { for s in sized(3, 3, false) { v.push(TokCase { pats: vec![s], len: 3, seed, tpl: String::new() }); } }
        // matchers whose output is (), as prepared from a plain pattern
        let units = sized(1, 4, true).into_iter().chain(picked()).filter(|s| s.vars() <= 4).map(|sh| Case { sh, len: if th { 2 } else { 1 }, seed }).collect();
        for s in large_sets(th) { v.push(TokCase::of(s, seed)); }
        for n in 1..=if th { 4 } else { 3 } { for s in shared(n, 2) { v.push(TokCase { pats: vec![s], len: if n < 4 { 3 } else { 2 }, seed, tpl: String::new() }); } }
        for s in woven() { v.push(TokCase { pats: vec![s], len: if th { 4 } else { 2 }, seed, tpl: String::new() }); }
        let ws = woven_pats();
        for p in &ws { for q in &ws { v.push(TokCase { pats: vec![p.clone(), q.clone()], len: if th { 3 } else { 2 }, seed, tpl: String::new() }); } }
        C20 { cases: v, units }
    }
}
type Dfa<S> = SymbolRangeDfa<S, S>;
/// terms of everything a machine reports about itself
fn dump<S: Symbol>(d: &Dfa<S>) -> (u32, Vec<(u32, Term, Term, u32)>, Vec<Option<Term>>) {
    let n = d.count_states();
    let mut tr = vec![];
    for s in 0..n { for (r, t) in d.get_transitions_for_state(s) { tr.push((s, r.lowest.term(), r.highest.term(), t)); } }
    (n, tr, (0..n).map(|s| d.output_symbol_for_state(s).map(|o| o.term())).collect())
}
fn dump_eq(a: &(u32, Vec<(u32, Term, Term, u32)>, Vec<Option<Term>>), b: &(u32, Vec<(u32, Term, Term, u32)>, Vec<Option<Term>>)) -> B {
    if a.0 != b.0 || a.1.len() != b.1.len() || a.2.len() != b.2.len() { return B::f(); }
    B::all(a.1.iter().zip(&b.1).map(|(x, y)| if x.0 != y.0 || x.3 != y.3 { B::f() } else { B::eq(x.1, y.1).and(&B::eq(x.2, y.2)) })
        .chain(a.2.iter().zip(&b.2).map(|(x, y)| match (x, y) { (None, None) => B::t(), (Some(x), Some(y)) => B::eq(*x, *y), _ => B::f() })))
}
impl Harness for C20 {
    fn ncases(&self) -> usize { self.cases.len() + self.units.len() }
    fn describe(&self, c: usize) -> String {
        if c >= self.cases.len() { let c = &self.units[c - self.cases.len()]; return format!("matcher with output () for {} through four formats, then every input of length <= {}", c.sh.text(), c.len); }
        let c = &self.cases[c]; format!("matcher for {} through four formats, then every input of length <= {}", c.text(), c.len)
    }
    fn hash_seed(&self, c: usize) -> u64 { self.cases.get(c).map(|c| c.seed).unwrap_or_else(|| self.units[0].seed) }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        if case >= self.cases.len() { return unit_output(&self.units[case - self.cases.len()], w); }
        let c = &self.cases[case];
        let mut tm = TokenMatcher::new();
        let (mut pool, mut ranks) = (Pool::new(), Pool::new());
        for sh in &c.pats { let p = sh.make_in(w, &mut pool); let t = sh.token(w, &mut ranks); w.note(|| format!("{:?} {:?}", p, t)); tm.add_pattern(p, t); }
        let input = c.input(w, &mut pool);
        let dfa: Dfa<W::S> = tm.prepare_to_match();
        let want = dump(&dfa);
        let mut forms: Vec<(&str, Option<Dfa<W::S>>)> = vec![];
        let js = serde_json::to_string(&dfa).ok();
        forms.push(("json", js.as_ref().and_then(|s| serde_json::from_str(s).ok())));
        let val = serde_json::to_value(&dfa).ok();
        forms.push(("json value (fields in another order)", val.and_then(|v| serde_json::from_value(v).ok())));
        forms.push(("bincode", bincode::serialize(&dfa).ok().and_then(|b| bincode::deserialize(&b).ok())));
        // a format with named fields whose order is reversed on the way
        forms.push(("json with reversed fields", js.as_ref().and_then(|s| {
            let v: serde_json::Value = serde_json::from_str(s).ok()?;
            serde_json::from_str(&reversed(&v)).ok()
        })));
        let exp = run_match(&dfa, &input);
        w.observe(opt_hash(exp.as_ref().map(|x| x.0)));
        for (name, d) in forms {
            let d = match d { Some(d) => d, None => { w.require(&format!("{}: the matcher can be written and read back", name), B::f()); continue; } };
            let mut got = dump(&d);
            if twin() { got.1.pop(); }
            w.require(&format!("{}: same states, transitions and outputs", name), dump_eq(&want, &got));
            let r = run_match(&d, &input);
            let b = match (&exp, &r) { (None, None) => B::t(), (Some(a), Some(b)) => B::c(a.0 == b.0).and(&B::eq(a.1.term(), b.1.term())), _ => B::f() };
            w.require(&format!("{}: same result", name), b);
        }
        // single ranges
        let a = w.sym("lo");
        let b = w.sym("hi");
        w.assume_le(&a, &b);
        let r = SymbolRange::new(a.clone(), b.clone());
        let mut rs: Vec<Option<SymbolRange<W::S>>> = vec![];
        rs.push(serde_json::to_string(&r).ok().and_then(|s| serde_json::from_str(&s).ok()));
        rs.push(serde_json::to_value(&r).ok().and_then(|s| serde_json::from_str(&reversed(&s)).ok()));
        rs.push(bincode::serialize(&r).ok().and_then(|s| bincode::deserialize(&s).ok()));
        for x in rs {
            let ok = match x { Some(x) => B::eq(x.lowest.term(), a.term()).and(&B::eq(x.highest.term(), b.term())), None => B::f() };
            w.require("a range survives serialization", ok);
        }
    }
}
fn unit_output<W: World>(c: &Case, w: &mut W) {
    type U<S> = SymbolRangeDfa<S, ()>;
    let pat = c.sh.make(w);
    let input = inputs(w, c.len);
    w.note(|| format!("pattern {:?} input {:?}", pat, input));
    let dfa: U<W::S> = pat.prepare_to_match();
    let n = dfa.count_states();
    let outs = |d: &U<W::S>| (0..d.count_states()).map(|s| d.output_symbol_for_state(s).is_some()).collect::<Vec<bool>>();
    let trans = |d: &U<W::S>| (0..d.count_states()).flat_map(|s| d.get_transitions_for_state(s).into_iter().map(move |(r, t)| (s, r.lowest.term(), r.highest.term(), t))).collect::<Vec<_>>();
    let (want, wtr) = (outs(&dfa), trans(&dfa));
    let exp = matches_prepared(&input, &dfa);
    w.observe(opt_hash(exp));
    let js = serde_json::to_value(&dfa).ok();
    let text = serde_json::to_string(&dfa).ok();
    let forms: Vec<(&str, bool, Option<U<W::S>>)> = vec![
        ("json", true, text.as_ref().and_then(|s| serde_json::from_str(s).ok())),
        ("json value", true, js.and_then(|v| serde_json::from_value(v).ok())),
        ("json with reversed fields", true, text.as_ref().and_then(|s| serde_json::from_str(&reversed(&serde_json::from_str(s).ok()?)).ok())),
        ("bincode", false, bincode::serialize(&dfa).ok().and_then(|b| bincode::deserialize(&b).ok())),
    ];
    for (name, is_json, d) in forms {
        let d = match d { Some(d) => d, None => { w.require(&format!("{}: the matcher can be written and read back", name), B::f()); continue; } };
        let gtr = trans(&d);
        let same = d.count_states() == n && gtr.len() == wtr.len();
        let b = if same { B::all(wtr.iter().zip(&gtr).map(|(x, y)| B::c(x.0 == y.0 && x.3 == y.3).and(&B::eq(x.1, y.1)).and(&B::eq(x.2, y.2)))) } else { B::f() };
        w.require(&format!("{}: same states and transitions", name), b);
        if !same { continue; }
        let got = outs(&d);
        let r = matches_prepared(&input, &d);
        if is_json && got != want && got.iter().all(|o| !*o) && r.is_none() {
            // the one known way to go wrong: every output () is written as null and read back as no output
            w.known("output () through json: outputs lost, all else kept", || format!("{} with output () read back from {} accepts nothing", c.sh.text(), name));
            continue;
        }
        w.require(&format!("{}: same outputs", name), B::c(got == want));
        w.require(&format!("{}: same result", name), B::c(r == exp));
    }
}
fn reversed(v: &serde_json::Value) -> String {
    use serde_json::Value::*;
    match v {
        Object(m) => { let mut e: Vec<std::string::String> = m.iter().map(|(k, v)| format!("{}:{}", serde_json::to_string(k).unwrap(), reversed(v))).collect(); e.reverse(); format!("{{{}}}", e.join(",")) }
        Array(a) => format!("[{}]", a.iter().map(reversed).collect::<Vec<_>>().join(",")),
        x => x.to_string(),
    }
}

// ------------------------------------------------------------------------------------- C21
#[derive(Default, Debug)]
pub struct Rec<S> { pub states: Vec<(Vec<(S, S, u32)>, Vec<S>)>, pub early: bool }
impl<S: Symbol> DfaBuilder<SymbolRange<S>, S, Rec<S>> for Rec<S> {
    fn start_state(&mut self) { self.states.push((vec![], vec![])); }
    fn transition(&mut self, r: SymbolRange<S>, t: StateId) { match self.states.last_mut() { Some(s) => s.0.push((r.lowest, r.highest, t)), None => self.early = true } }
    fn accept(&mut self, o: S) { match self.states.last_mut() { Some(s) => s.1.push(o), None => self.early = true } }
    fn build(self) -> Rec<S> { self }
}
pub fn contract<W: World>(w: &mut W, rec: &Rec<W::S>) {
    let n = rec.states.len();
    w.require("a start state is defined and nothing comes before it", B::c(n > 0 && !rec.early));
    for (i, (tr, outs)) in rec.states.iter().enumerate() {
        w.require(&format!("at most one output for state {}", i), B::c(outs.len() <= 1));
        for (k, (lo, hi, t)) in tr.iter().enumerate() {
            w.require("targets are states that are defined", B::c((*t as usize) < n));
            w.require("ranges are not reversed", B::le(lo.term(), hi.term()));
            if k > 0 {
                let p = tr[k - 1].1.term();
                w.require(&format!("transitions of state {} ascend and are disjoint", i), if twin() { B::lt(Term { var: p.var, off: p.off + 1 }, lo.term()) } else { B::lt(p, lo.term()) });
            }
        }
    }
}
/// the recorded table, run by the meaning of the table itself
pub fn run_table<W: World>(rec: &Rec<W::S>, input: &[W::S]) -> Vec<Vec<B>> {
    // at[l][s]: after l symbols the table is in state s
    let n = rec.states.len();
    let mut at = vec![(0..n).map(|s| B::c(s == 0)).collect::<Vec<B>>()];
    for x in input {
        let x = x.term();
        let last = at.last().unwrap().clone();
        let mut next: Vec<Vec<B>> = vec![vec![]; n];
        for s in 0..n {
            if last[s].is() == Some(false) { continue; }
            for tr in rec.states[s].0.iter().filter(|tr| (tr.2 as usize) < n) { next[tr.2 as usize].push(last[s].and(&B::le(tr.0.term(), x)).and(&B::le(x, tr.1.term()))); }
        }
        at.push(next.into_iter().map(|v| B::any(v)).collect());
    }
    at
}
pub struct C21 { pub cases: Vec<TokCase>, pub graphs: Vec<crate::p_nfa::Graph>, pub seed: u64 }
impl C21 {
    pub fn new(t: Tier, seed: u64) -> C21 {
        let th = matches!(t, Tier::Thorough);
        let mut v = vec![];
        for s in sized(1, 4, true).into_iter().chain(sized(2, 4, true)).chain(sized(3, 3, false)) { v.push(TokCase { len: if th { 3 } else { 2 }, pats: vec![s], seed, tpl: String::new() }); }
        for s in picked() { let n = s.vars(); v.push(TokCase { pats: vec![s], len: if th { if n <= 4 { 3 } else { 2 } } else if n <= 4 { 2 } else { 1 }, seed, tpl: String::new() }); }
        for p in small_pats() { for q in small_pats() { if p.vars() + q.vars() <= if th { 4 } else { 3 } { v.push(TokCase { pats: vec![p.clone(), q], len: 2, seed, tpl: String::new() }); } } }
        if th { for s in heavy() { v.push(TokCase { pats: vec![s], len: 1, seed, tpl: String::new() }); } }
        for n in 1..=if th { 5 } else { 4 } { for s in shared(n, 2) { v.push(TokCase { pats: vec![s], len: 4, seed, tpl: String::new() }); } }
        for s in woven() { v.push(TokCase { pats: vec![s], len: if th { 5 } else { 4 }, seed, tpl: String::new() }); }
        for (s, l) in large(th) { v.push(TokCase { pats: vec![s], len: l.min(9), seed, tpl: String::new() }); }
        let ws = woven_pats();
        for p in &ws { for q in &ws { v.push(TokCase { pats: vec![p.clone(), q.clone()], len: 4, seed, tpl: String::new() }); } }
        let mut graphs = crate::p_nfa::graphs(t, true);
        graphs.extend(crate::p_nfa::woven_graphs(th));
        graphs.extend(crate::p_nfa::large_graphs(th).into_iter().map(|g| g.0));
        for s in large_sets(th) { v.push(TokCase::of(s, seed)); }
        C21 { cases: v, graphs, seed }
    }
}
impl Harness for C21 {
    fn ncases(&self) -> usize { self.cases.len() + self.graphs.len() }
    fn describe(&self, c: usize) -> String {
        if c < self.cases.len() { let c = &self.cases[c]; format!("builder calls for token patterns {}", c.text()) }
        else { format!("builder calls for machine {}", self.graphs[c - self.cases.len()].text()) }
    }
    fn hash_seed(&self, _c: usize) -> u64 { self.seed }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        if case < self.cases.len() {
            let c = &self.cases[case];
            let mut tm = TokenMatcher::new();
            let (mut pats, mut toks) = (vec![], vec![]);
            let (mut pool, mut ranks) = (Pool::new(), Pool::new());
            for sh in &c.pats { let p = sh.make_in(w, &mut pool); let t = sh.token(w, &mut ranks); w.note(|| format!("{:?} {:?}", p, t)); tm.add_pattern(p.clone(), t.clone()); pats.push(p); toks.push(t); }
            let rec = DfaCompiler::build(tm.to_ndfa(), Rec { states: vec![], early: false });
            w.note(|| format!("builder received {:?}", rec));
            w.observe(rec.states.len() as u64);
            contract(w, &rec);
            // the states it names mean what they should: the first is the start state
            let input = c.input(w, &mut pool);
            let at = run_table::<W>(&rec, &input);
            let accs: Vec<Vec<B>> = pats.iter().map(|p| accept_row(p, &input)).collect();
            for l in 0..=c.len {
                let got = B::any((0..rec.states.len()).filter(|s| !rec.states[*s].1.is_empty()).map(|s| at[l][s].clone()));
                w.require("the table starts in its first state and accepts what the patterns accept", got.iff(&B::any(accs.iter().map(|a| a[l].clone()))));
                // and its outputs are tokens of patterns that match there
                for (s, st) in rec.states.iter().enumerate() { for o in &st.1 {
                    w.require("outputs belong to a pattern matching there", at[l][s].not().or(&B::any(accs.iter().zip(&toks).map(|(a, t)| a[l].and(&B::eq(o.term(), t.term()))))));
                } }
            }
        } else {
            let g = &self.graphs[case - self.cases.len()];
            let (mut m, _) = g.make(w);
            m.fix_overlapping_ranges();
            let boxed: Box<dyn StateMachine<SymbolRange<W::S>, W::S>> = Box::new(m);
            let rec = DfaCompiler::build(boxed, Rec { states: vec![], early: false });
            w.note(|| format!("builder received {:?}", rec));
            w.observe(rec.states.len() as u64);
            contract(w, &rec);
        }
    }
}
