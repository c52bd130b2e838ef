//! C13 C14 C16: tokenizers
use crate::engine::*;
use crate::explore::Harness;
use crate::expr::*;
use crate::p_pattern::{inputs, TokCase};
use crate::pat::*;
use crate::shapes::*;
use crate::{twin, Tier};
use concordance::*;
use std::cell::Cell;
use std::rc::Rc;

/// A source that remembers how often it was asked and whether it has ended
pub struct Src<S> { pub data: Vec<S>, pub pos: usize, pub ended: Rc<Cell<u32>> }
impl<S: Clone> SymbolReader<S> for Src<S> {
    fn next_symbol(&mut self) -> Option<S> {
        if self.pos < self.data.len() { self.pos += 1; Some(self.data[self.pos - 1].clone()) } else { self.ended.set(self.ended.get() + 1); None }
    }
}

pub fn token_sets(th: bool) -> Vec<(Vec<Sh>, usize)> {
    let mut v: Vec<(Vec<Sh>, usize)> = vec![
        (vec![], 2), (vec![Sh::Lit(1)], 3), (vec![Sh::Rng], 3), (vec![star(Sh::Lit(1))], 3), (vec![plus(Sh::Rng)], 4), (vec![Sh::Eps], 2), (vec![Sh::Lit(2)], 4), (vec![opt(Sh::Lit(1))], 3),
        (vec![Sh::Lit(1), Sh::Lit(2)], 3), (vec![plus(Sh::Lit(1)), Sh::Lit(1)], 3), (vec![all(&[plus(Sh::Lit(1)), Sh::Lit(1)])], 4), (vec![all(&[plus(Sh::Lit(1)), Sh::Lit(1)]), Sh::Lit(1)], 3),
        (vec![Sh::Lit(3)], 4), (vec![Sh::Lit(3), Sh::Eps], 3), (vec![all(&[Sh::Lit(1), star(Sh::Rng)])], 3), (vec![any(&[Sh::Lit(1), Sh::Lit(3)])], 4), (vec![rep(2, 4, Sh::Lit(1))], 4), (vec![any(&[Sh::Eps, Sh::Lit(2)])], 4),
        (vec![Sh::Lit(1), star(Sh::Lit(1))], 3), (vec![Sh::Rng, Sh::Lit(2)], 2),
        // long look-ahead that does not end in a match: the tape has to grow and rewind
        (vec![Sh::Lit(1), all(&[plus(Sh::Lit(1)), Sh::Lit(1)])], 5), (vec![all(&[plus(Sh::Rng), Sh::Lit(1)])], 4),
    ];
    // shared symbols: longer inputs, keywords against identifiers, long look-ahead that is given up
    let ab = || rs(b'a', b'b');
    let l = if th { 1 } else { 0 };
    v.extend(vec![
        (vec![sy("a"), sy("aaaaab")], 7 + l), (vec![sy("a"), all(&[plus(sy("a")), sy("b")])], 7 + l), (vec![sy("ab"), all(&[star(ab()), sy("c")])], 6 + l), (vec![plus(ab()), sy("abab")], 5 + l),
        (vec![sy("a"), sy("ab"), sy("abc"), sy("abca")], 5 + l), (vec![plus(sy("a")), plus(sy("b")), sy("aba")], 5 + l), (vec![any(&[sy("a"), sy("aaaaaa")])], 8 + l), (vec![sy("b"), sy("ba"), all(&[sy("b"), star(sy("a")), sy("b")])], 6 + l),
        (vec![star(sy("ab")), sy("ba")], 5 + l), (vec![all(&[sy("a"), star(rs(b'a', b'c')), sy("a")]), sy("c")], 5 + l), (vec![Inf(3, ab()), sy("b")], 5 + l), (vec![rep(2, 5, sy("a")), sy("aab")], 6 + l), (vec![sy("a"), Sh::Eps, star(sy("b")), sy("bbc")], 4 + l),
    ]);
    if th {
        v.extend(vec![(vec![plus(Sh::Rng)], 6), (vec![Sh::Lit(1), all(&[plus(Sh::Lit(1)), Sh::Lit(1)])], 6), (vec![Sh::Rng, Sh::Rng], 3), (vec![Sh::Lit(2), Sh::Lit(2)], 4), (vec![Sh::Lit(1), Sh::Rng, Sh::Eps], 3),
            (vec![Sh::Lit(4)], 6), (vec![any(&[Sh::Lit(1), all(&[Sh::Lit(1), plus(Sh::Lit(1)), Sh::Lit(1)])])], 5), (vec![plus(all(&[Sh::Lit(1), Sh::Rng]))], 5), (vec![plus(Sh::Lit(1)), plus(Sh::Lit(1))], 4), (vec![Inf(3, Sh::Lit(1))], 6)]);
    }
    v
}
#[allow(non_snake_case)]
fn Inf(n: u32, x: Sh) -> Sh { Sh::Inf(n, Box::new(x)) }

pub struct Built<S: Symbol> { pub dfa: SymbolRangeDfa<S, S>, pub pats: Vec<Pattern<S>>, pub toks: Vec<S>, pub pool: Pool<S>, pub ranks: Pool<S> }
pub fn build<W: World>(w: &mut W, shapes: &[Sh]) -> Built<W::S> {
    let mut tm = TokenMatcher::new();
    let (mut pats, mut toks) = (vec![], vec![]);
    let (mut pool, mut ranks) = (Pool::new(), Pool::new());
    for sh in shapes {
        let p = sh.make_in(w, &mut pool);
        let t = sh.token(w, &mut ranks);
        w.note(|| format!("token {:?} for {:?}", t, p));
        tm.add_pattern(p.clone(), t.clone());
        pats.push(p);
        toks.push(t);
    }
    Built { dfa: tm.prepare_to_match(), pats, toks, pool, ranks }
}
/// what the token patterns mean on one input: per pattern, which stretches of it they match
pub struct Meant { pub mats: Vec<Mat>, pub toks: Vec<Term>, pub len: usize }
impl Meant {
    pub fn new<S: Symbol>(b: &Built<S>, input: &[S]) -> Meant { Meant { mats: b.pats.iter().map(|p| meaning(p, input)).collect(), toks: b.toks.iter().map(|t| t.term()).collect(), len: input.len() } }
    /// "the longest non-empty match at `from` has length k (0: there is none)", and its token
    pub fn expect(&self, from: usize, k: usize, tok: Option<Term>) -> B {
        let n = self.len - from;
        let accs: Vec<&[B]> = self.mats.iter().map(|m| &m[from][from..]).collect();
        let acc: Vec<B> = (0..=n).map(|j| if j == 0 { B::f() } else { B::any(accs.iter().map(|a| a[j].clone())) }).collect();
        if k == 0 { return longest(&acc, None); }
        if k > n { return B::f(); }
        let l = longest(&acc, Some(k));
        match tok {
            Some(t) => {
                let is_one = B::any(accs.iter().zip(&self.toks).map(|(a, o)| a[k].and(&B::eq(t, *o))));
                let is_least = B::all(accs.iter().zip(&self.toks).map(|(a, o)| a[k].not().or(&B::le(t, *o))));
                l.and(&is_one).and(&is_least)
            }
            None => l,
        }
    }
}

// ------------------------------------------------------------------------------------- C13
/// (tokens and input, calls of every kind, calls before that: tokens, and skipping where there is none)
pub struct C13 { pub cases: Vec<(TokCase, usize, usize)> }
impl C13 {
    pub fn new(t: Tier, seed: u64) -> C13 {
        let th = matches!(t, Tier::Thorough);
        let large = crate::p_pattern::large_sets(th).into_iter().flat_map(|s| { let c = TokCase::of(s, seed); let far = if c.len > 30 { Some((c.clone(), 3, c.len + 4)) } else { None }; Some((c, if th { 6 } else { 5 }, 0)).into_iter().chain(far) });
        C13 { cases: token_sets(th).into_iter().map(|(p, len)| (TokCase { pats: p, len, seed, tpl: String::new() }, if len >= 6 { 3 } else if th { 5 } else if len >= 4 { 4 } else { 5 }, 0)).chain(large).collect() }
    }
}
impl Harness for C13 {
    fn ncases(&self) -> usize { self.cases.len() }
    fn describe(&self, c: usize) -> String { let (c, k, lead) = &self.cases[c]; format!("tokens {} on every input of length {}, every sequence of {} next_token / skip calls{}", c.text(), c.len, k, if *lead > 0 { format!(" after {} calls", lead) } else { String::new() }) }
    fn hash_seed(&self, c: usize) -> u64 { self.cases[c].0.seed }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let (c, calls, lead) = &self.cases[case];
        let mut b = build(w, &c.pats);
        let input = c.input(w, &mut b.pool);
        w.note(|| format!("input {:?}", input));
        let meant = Meant::new(&b, &input);
        w.branch(|w| {
        let ended = Rc::new(Cell::new(0));
        let mut tk = if case % 2 == 1 { Tokenizer::new(Src { data: input.clone(), pos: 0, ended: ended.clone() }, b.dfa.clone()) } else { Tokenizer::new_prepared(Src { data: input.clone(), pos: 0, ended: ended.clone() }, &b.dfa) };
        let mut pos = 0;
        let mut stuck = false;
        for step in 0..*lead + *calls {
            w.require("position", B::c(tk.get_source_position() == pos));
            w.require("the end is reported exactly when everything was consumed and the end of the source was seen", B::c(tk.at_end_of_reader() == (pos == input.len() && ended.get() > 0)));
            let kind = if step < *lead { stuck as usize } else { w.choose("call", if step == 0 || step + 1 == *lead + *calls { 3 } else { 2 }) };
            match kind {
                1 => {
                    let r = tk.skip_input();
                    w.note(|| format!("skip_input at {}: {:?}", pos, r));
                    let ok = match (&r, input.get(pos)) { (Some(a), Some(b)) => B::eq(a.term(), b.term()), (None, None) => B::t(), _ => B::f() };
                    w.require("skipping yields the symbol at the position", ok);
                    w.observe(r.is_some() as u64);
                    if r.is_some() { pos += 1; }
                    stuck = false;
                }
                kind => {
                    let (range, tok) = if kind == 0 {
                        let r = tk.next_token();
                        w.note(|| format!("next_token at {}: {:?}", pos, r));
                        match r { Some((r, t)) => (Some(r), Some(t)), None => (None, None) }
                    } else {
                        let t = SymbolReader::next_symbol(&mut tk);
                        w.note(|| format!("next_symbol at {}: {:?}", pos, t));
                        let p = tk.get_source_position();
                        (if t.is_some() { Some(pos..p) } else { None }, t)
                    };
                    w.observe(range.as_ref().map(|r| r.end as u64).unwrap_or(99));
                    let k = match &range { Some(r) => { w.require("the range starts at the position", B::c(r.start == pos && r.end > pos)); r.end.max(pos) - pos } None => 0 };
                    let k2 = if twin() && k == 2 { 1 } else { k };
                    w.require(&format!("longest non-empty match at {} has length {} and its lowest token", pos, k), meant.expect(pos, k2, tok.as_ref().map(|t| t.term())));
                    pos += k;
                    stuck = k == 0;
                }
            }
        }
        w.require("final position", B::c(tk.get_source_position() == pos));
        });
    }
}

// ------------------------------------------------------------------------------------- C14
pub struct C14 { pub cases: Vec<TokCase> }
impl C14 {
    pub fn new(t: Tier, seed: u64) -> C14 {
        let th = matches!(t, Tier::Thorough);
        let mut cases: Vec<TokCase> = token_sets(th).into_iter().flat_map(|(p, len)| vec![TokCase { pats: p.clone(), len: len + if th { 1 } else { 0 }, seed, tpl: String::new() }, TokCase { pats: p, len: len.min(1), seed, tpl: String::new() }]).collect();
        if th { for a in crate::p_pattern::woven_pats() { for b in crate::p_pattern::woven_pats() { cases.push(TokCase { pats: vec![a.clone(), b], len: 4, seed, tpl: String::new() }); } } }
        for s in crate::p_pattern::large_sets(th) { cases.push(TokCase::of(s, seed)); }
        cases.push(TokCase { pats: vec![Sh::Lit(1)], len: 0, seed, tpl: String::new() });
        cases.push(TokCase { pats: vec![Sh::Lit(1)], len: 6, seed, tpl: String::new() });
        C14 { cases }
    }
}
impl Harness for C14 {
    fn ncases(&self) -> usize { self.cases.len() }
    fn describe(&self, c: usize) -> String { let c = &self.cases[c]; format!("iterating tokens {} over every input of length {}", c.text(), c.len) }
    fn hash_seed(&self, c: usize) -> u64 { self.cases[c].seed }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let c = &self.cases[case];
        let mut b = build(w, &c.pats);
        let input = c.input(w, &mut b.pool);
        w.note(|| format!("input {:?}", input));
        let meant = Meant::new(&b, &input);
        w.branch(|w| {
        let ended = Rc::new(Cell::new(0));
        let mut tk = if case % 4 >= 2 { Tokenizer::new(Src { data: input.clone(), pos: 0, ended: ended.clone() }, b.dfa.clone()) } else { Tokenizer::new_prepared(Src { data: input.clone(), pos: 0, ended: ended.clone() }, &b.dfa) };
        let mut pos = 0;
        let mut items = 0;
        loop {
            let item = Iterator::next(&mut tk);
            w.note(|| format!("item {:?}", item));
            match item {
                Some((r, t)) => {
                    w.observe(r.end as u64);
                    items += 1;
                    w.require("ranges ascend, do not overlap and are not empty", B::c(r.start >= pos && r.end > r.start && r.end <= input.len()));
                    if !(r.start >= pos && r.end > r.start && r.end <= input.len()) || items > input.len() { w.require("at most one token per symbol", B::f()); return; }
                    for p in pos..r.start { w.require("no match starts at a symbol outside the ranges", meant.expect(p, 0, None)); }
                    let k = if twin() && r.end - r.start == 2 { 1 } else { r.end - r.start };
                    w.require("each range is the longest match at its start, with its lowest token", meant.expect(r.start, k, Some(t.term())));
                    pos = r.end;
                }
                None => {
                    for p in pos..input.len() { w.require("no match starts at a symbol outside the ranges", meant.expect(p, 0, None)); }
                    w.require("iteration ends only when the whole input is covered", B::c(tk.get_source_position() == input.len() && tk.at_end_of_reader() && ended.get() > 0));
                    w.require("it stays ended", B::c(Iterator::next(&mut tk).is_none()));
                    return;
                }
            }
        }
        });
    }
}

// ------------------------------------------------------------------------------------- C16
/// which symbols of the stream are tags already (and how many symbols they hold)
pub struct C16 { pub cases: Vec<(TokCase, Vec<Option<usize>>, u8)> }
impl C16 {
    pub fn new(t: Tier, seed: u64) -> C16 {
        let th = matches!(t, Tier::Thorough);
        let mut v = vec![];
        for (p, len) in token_sets(th) {
            let len = len.min(if th { 5 } else { 4 });
            v.push((TokCase { pats: p.clone(), len, seed, tpl: String::new() }, vec![None; len], 0));
            v.push((TokCase { pats: p.clone(), len, seed, tpl: String::new() }, vec![None; len], 1));
            v.push((TokCase { pats: p.clone(), len, seed, tpl: String::new() }, vec![None; len], 2));
            if len >= 2 {
                let mut k = vec![None; len]; k[1] = Some(1);
                v.push((TokCase { pats: p.clone(), len, seed, tpl: String::new() }, k, 0));
                let mut k = vec![None; len]; k[0] = Some(2); k[len - 1] = Some(0);
                v.push((TokCase { pats: p, len, seed, tpl: String::new() }, k, 0));
            }
        }
        for s in crate::p_pattern::large_sets(th) { let c = TokCase::of(s, seed); let n = c.len; v.push((c.clone(), vec![None; n], 0)); v.push((c.clone(), vec![None; n], 1)); if n <= 60 { v.push((c, vec![None; n], 2)); } }
        C16 { cases: v }
    }
}
type Ts<S> = TaggedStream<S, S>;
fn read_all<S: Symbol>(t: &Ts<S>) -> Vec<TagSymbol<S, S>> { let mut r = t.read_symbols(); let mut v = vec![]; while let Some(x) = r.next_symbol() { v.push(x); } v }
fn leaves<S: Symbol>(x: &TagSymbol<S, S>, out: &mut Vec<Term>) { match x { TagSymbol::Untagged(s) => out.push(s.term()), TagSymbol::Tagged(_, t) => for y in read_all(t) { leaves(&y, out) } } }
/// structural equality of stream symbols, as a formula over their terms
pub fn tag_eq<S: Symbol>(a: &TagSymbol<S, S>, b: &TagSymbol<S, S>) -> B {
    match (a, b) {
        (TagSymbol::Untagged(x), TagSymbol::Untagged(y)) => B::eq(x.term(), y.term()),
        (TagSymbol::Tagged(s, x), TagSymbol::Tagged(t, y)) => {
            let (x, y) = (read_all(x), read_all(y));
            if x.len() != y.len() { return B::f(); }
            B::eq(s.term(), t.term()).and(&B::all(x.iter().zip(&y).map(|(p, q)| tag_eq(p, q))))
        }
        _ => B::f(),
    }
}
impl Harness for C16 {
    fn ncases(&self) -> usize { self.cases.len() }
    fn describe(&self, c: usize) -> String { let (c, k, m) = &self.cases[c]; format!("tokens {} on every stream of length {} with tags {:?}{}", c.text(), c.len, k, match *m { 1 => " through from_tokenized_reader", 2 => ", each mapped to the one before it", _ => "" }) }
    fn hash_seed(&self, c: usize) -> u64 { self.cases[c].0.seed }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let (c, kinds, how) = &self.cases[case];
        let mut b = build(w, &c.pats);
        let mut given = if c.tpl.is_empty() { None } else { Some(c.input(w, &mut b.pool).into_iter()) };
        // the stream: symbols with tags holding other symbols in between
        let mut flat: Vec<W::S> = vec![];
        let mut tags: Vec<(std::ops::Range<usize>, W::S)> = vec![];
        for k in kinds {
            match k {
                None => flat.push(match &mut given { Some(g) => g.next().unwrap(), None => w.sym("in") }),
                Some(n) => { let s = flat.len(); for _ in 0..*n { flat.push(w.sym("inner")); } let t = w.sym("old tag"); tags.push((s..s + n, t)); }
            }
        }
        let base: Ts<W::S> = TaggedStream::from_reader(&mut VecReader::from_vec(flat.clone()));
        let stream = base.with_tags(tags.into_iter());
        let before = read_all(&stream);
        w.require("stream has the intended length", B::c(before.len() == kinds.len()));
        if before.len() != kinds.len() { return; }
        // the mapping: untagged symbols to themselves, tags to a symbol of their own
        let mut mapped: Vec<W::S> = before.iter().map(|x| match x { TagSymbol::Untagged(s) => s.clone(), TagSymbol::Tagged(t, _) => t.clone() }).collect();
        // a mapping with a memory: each symbol is mapped once, in order
        if *how == 2 && !mapped.is_empty() { mapped.pop(); mapped.insert(0, mapped.first().cloned().unwrap_or_else(|| match &before[0] { TagSymbol::Untagged(s) => s.clone(), TagSymbol::Tagged(t, _) => t.clone() })); }
        w.note(|| format!("stream {:?}", stream));
        let meant = Meant::new(&b, &mapped);
        w.branch(|w| {
        let result = if *how == 1 {
            TaggedStream::from_tokenized_reader(&mut VecReader::from_vec(flat.clone()), &b.dfa)
        } else if *how == 2 {
            let mut last: Option<W::S> = None;
            stream.tokenize(&b.dfa, |x| { let s = match x { TagSymbol::Untagged(s) => s, TagSymbol::Tagged(t, _) => t }; let r = last.take().unwrap_or_else(|| s.clone()); last = Some(s); r })
        } else {
            stream.tokenize(&b.dfa, |x| match x { TagSymbol::Untagged(s) => s, TagSymbol::Tagged(t, _) => t })
        };
        w.note(|| format!("tokenized {:?}", result));
        let after = read_all(&result);
        w.observe(after.len() as u64);
        // walk the result: a symbol that is new is a tag made by the tokenizer
        let mut pos = 0;
        for (i, x) in after.iter().enumerate() {
            w.require("reading and indexing agree", tag_eq(x, &result[i]));
            if pos >= before.len() { w.require("nothing is added", B::f()); return; }
            match x {
                TagSymbol::Tagged(t, inner) if !is_same(x, &before[pos]) => {
                    let inner = read_all(inner);
                    let n = inner.len();
                    if n == 0 || pos + n > before.len() { w.require("a tag holds the symbols of its region", B::f()); return; }
                    for (j, y) in inner.iter().enumerate() { w.require("a tag carries the original symbols", tag_eq(y, &before[pos + j])); }
                    let k = if twin() && n == 2 { 1 } else { n };
                    w.require("a tagged region is the longest match at its start, with its lowest token", meant.expect(pos, k, Some(t.term())));
                    pos += n;
                }
                x => {
                    w.require("untouched symbols are kept", tag_eq(x, &before[pos]));
                    w.require("nothing matches at an untouched symbol", meant.expect(pos, 0, None));
                    pos += 1;
                }
            }
        }
        w.require("nothing is lost", B::c(pos == before.len()));
        let mut lv = vec![];
        for x in &after { leaves(x, &mut lv); }
        w.require("the leaves are the original symbols", B::c(lv.len() == flat.len()).and(&B::all(lv.iter().zip(&flat).map(|(a, b)| B::eq(*a, b.term())))));
        w.require("the original stream is untouched", B::c(read_all(&stream).len() == before.len()).and(&B::all(read_all(&stream).iter().zip(&before).map(|(a, b)| tag_eq(a, b)))));
        });
    }
}
/// the symbol was there before: a fresh tag wraps at least the symbol at its position, so it nests deeper
fn is_same<S: Symbol>(a: &TagSymbol<S, S>, b: &TagSymbol<S, S>) -> bool { depth(a) == depth(b) }
fn depth<S: Symbol>(t: &TagSymbol<S, S>) -> usize { match t { TagSymbol::Untagged(_) => 0, TagSymbol::Tagged(_, t) => 1 + read_all(t).iter().map(depth).max().unwrap_or(0) } }
