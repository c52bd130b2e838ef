//! C24: readers on top of one another
use crate::engine::*;
use crate::explore::Harness;
use crate::expr::*;
use crate::p_pattern::{large_sets, TokCase};
use crate::p_token::{build, token_sets, Built, Meant};
use crate::pat::*;
use crate::shapes::*;
use crate::{twin, Tier};
use concordance::*;

/// what lies below the tokenizer
const BELOW: [&str; 7] = ["a tape that was read and taken back", "two readers of a split", "a mapping", "a box", "a tagged stream", "a tape on a mapping on a split", "a reader of a split whose sibling is dropped on the way"];
/// what lies above it
const ABOVE: [&str; 9] = ["a match", "a tokenizer", "a list", "a tape", "a split", "a tokenizer that is iterated", "a tagged stream", "a mapping in a box", "a tokenizer on a tape on a split"];
#[derive(Clone)]
pub enum Stage { Below(usize), Above(usize, Vec<Sh>) }
pub struct C24 { pub cases: Vec<(TokCase, Stage)> }
impl C24 {
    pub fn new(t: Tier, seed: u64) -> C24 {
        let th = matches!(t, Tier::Thorough);
        let case = |pats: &Vec<Sh>, len: usize| TokCase { pats: pats.clone(), len, seed, tpl: String::new() };
        let tok = |i: u8, x: Sh| Sh::Tok(i, Box::new(x));
        let ab = || rs(b'a', b'b');
        let mut cases = vec![];
        for (p, len) in token_sets(th) { for k in 0..BELOW.len() { cases.push((case(&p, if th { len.min(6) } else { len.min(4) }), Stage::Below(k))); } }
        for (i, s) in large_sets(th).into_iter().enumerate() { let c = TokCase::of(s, seed); if c.len <= 60 || th { for k in 0..BELOW.len() { if th || (i + k) % 3 == 0 { cases.push((c.clone(), Stage::Below(k))); } } } }
        let below: Vec<(Vec<Sh>, usize)> = vec![
            (vec![tok(0, sy("a")), tok(1, sy("b"))], 5), (vec![tok(0, sy("a")), tok(1, sy("ab")), tok(2, sy("b"))], 5), (vec![tok(1, plus(sy("a"))), tok(0, plus(sy("b")))], 5), (vec![tok(0, sy("aab")), tok(1, sy("a")), tok(2, sy("b"))], 5),
            (vec![tok(0, sy("a")), tok(1, ab())], 4), (vec![tok(2, star(sy("a"))), tok(0, sy("ab")), tok(1, ab())], 4), (vec![tok(0, ab()), tok(0, sy("c"))], 3),
        ];
        let above: Vec<Vec<Sh>> = vec![
            vec![sy("ab")], vec![plus(sy("a")), sy("ab")], vec![sy("a"), all(&[star(ab()), sy("c")])], vec![star(sy("a")), sy("b")], vec![sy("aab"), sy("a"), sy("b")], vec![any(&[Sh::Eps, sy("bb")]), sy("a")], vec![rep(1, 3, ab())], vec![],
        ];
        for (p, len) in &below { for q in &above { for k in 0..ABOVE.len() { cases.push((case(p, len + th as usize), Stage::Above(k, q.clone()))); } } }
        // everything arbitrary
        for p in vec![vec![Sh::Lit(1), Sh::Lit(1)], vec![plus(Sh::Rng)], vec![Sh::Rng, Sh::Lit(2)]] { for q in vec![vec![Sh::Lit(1)], vec![plus(Sh::Rng)], vec![Sh::Lit(2), Sh::Rng], vec![star(Sh::Lit(1))]] { for k in 0..ABOVE.len() { cases.push((case(&p, if th { 3 } else { 2 }), Stage::Above(k, q.clone()))); } } }
        // long
        let long = |f: &dyn Fn(usize) -> &'static str, n: usize| (0..n).map(|i| f(i)).collect::<String>();
        let sets = vec![(vec![tok(0, sy("a")), tok(1, sy("b")), tok(2, sy("ccc"))], long(&|i| if i % 7 == 5 { "b" } else { "a" }, 20) + "?a?"), (vec![tok(0, sy("a")), tok(1, sy("b"))], "a".repeat(34) + "b?a?"), (vec![tok(0, plus(sy("a"))), tok(1, sy("b"))], long(&|i| if i % 5 == 4 { "b" } else { "a" }, 40) + "?b?a"),
            (vec![tok(0, sy("a")), tok(1, sy(&("a".repeat(9) + "b")))], "a".repeat(12) + "?a?")];
        let tops = vec![vec![sy("a"), sy("aaaaab")], vec![sy("a"), all(&[plus(sy("a")), sy("c")])], vec![plus(ab())], vec![sy("ab"), sy("a"), all(&[star(sy("ab")), sy("c")])]];
        for (p, t) in &sets { for q in &tops { for k in 0..ABOVE.len() { cases.push((TokCase::of((p.clone(), t.clone()), seed), Stage::Above(k, q.clone()))); } } }
        C24 { cases }
    }
}
type Dfa<S> = SymbolRangeDfa<S, S>;
/// the tokens from the start of the input to the place where there is none, checked against their meaning: (tokens, the place)
struct Seq<S: Symbol> { toks: Vec<(std::ops::Range<usize>, S)>, at: usize }
fn sequence<W: World>(w: &mut W, dfa: &Dfa<W::S>, input: &[W::S], meant: &Meant) -> Option<Seq<W::S>> {
    let (mut toks, mut pos) = (vec![], 0);
    let mut tk = Tokenizer::new_prepared(VecReader::from_vec(input.to_vec()), dfa);
    loop {
        match tk.next_token() {
            Some((r, t)) => {
                let fine = r.start == pos && r.end > pos && r.end <= input.len();
                w.require("ranges follow one another", B::c(fine));
                if !fine { return None; }
                w.require("a token is the longest match", meant.expect(pos, r.end - pos, Some(t.term())));
                pos = r.end;
                toks.push((r, t));
            }
            None => { w.require("there is no match where the tokens end", meant.expect(pos, 0, None)); return Some(Seq { toks, at: pos }); }
        }
    }
}
fn same<S: Symbol>(a: &Option<(std::ops::Range<usize>, S)>, b: Option<&(std::ops::Range<usize>, S)>) -> B {
    match (a, b) { (Some((r, t)), Some((q, u))) => B::c(r == q).and(&B::eq(t.term(), u.term())), (None, None) => B::t(), _ => B::f() }
}
fn symbol<S: Symbol>(a: &Option<S>, b: Option<&S>) -> B { match (a, b) { (Some(a), Some(b)) => B::eq(a.term(), b.term()), (None, None) => B::t(), _ => B::f() } }
/// reads tokens until there is none, and once more
fn drain<W: World, R: SymbolReader<W::S>>(w: &mut W, what: &str, tk: &mut Tokenizer<W::S, W::S, R>, seq: &Seq<W::S>) {
    for k in 0..seq.toks.len() + 2 {
        let r = tk.next_token();
        w.note(|| format!("{}: token {:?}", what, r));
        w.require(&format!("{} finds the same tokens", what), same(&r, seq.toks.get(if twin() && k == 1 { 0 } else { k })));
        w.observe(r.map(|r| r.0.end as u64).unwrap_or(99));
    }
    w.require("and stays where they end", B::c(tk.get_source_position() == seq.at));
}
fn below<W: World>(w: &mut W, kind: usize, b: &Built<W::S>, input: &[W::S], seq: &Seq<W::S>) {
    let mut src = VecReader::from_vec(input.to_vec());
    match kind {
        0 => {
            let k = w.choose("read first", 1 + input.len().min(6));
            let mut tape = Tape::new(src);
            for _ in 0..k { tape.next_symbol(); }
            tape.rewind(k);
            drain(w, "a tokenizer on a tape", &mut Tokenizer::new_prepared(tape, &b.dfa), seq);
        }
        1 => {
            let (x, y) = src.split();
            let mut tk = [Tokenizer::new_prepared(x, &b.dfa), Tokenizer::new_prepared(y, &b.dfa)];
            let mut at = [0, 0];
            // both orders at each of the first few steps, then in turn to the end
            for step in 0..2 * seq.toks.len() + 8 {
                let who = if step < 3 { w.choose("who", 2) } else { step % 2 };
                let r = tk[who].next_token();
                w.note(|| format!("tokenizer {}: {:?}", who, r));
                w.require("two tokenizers on one source find what each would find alone", same(&r, seq.toks.get(if twin() && at[who] == 1 { 0 } else { at[who] })));
                at[who] += 1;
                w.observe(r.map(|r| r.0.end as u64).unwrap_or(99));
            }
            for t in &mut tk { w.require("both stop at the same place", B::c(t.get_source_position() == seq.at)); }
        }
        2 => {
            let pairs = VecReader::from_vec(input.iter().cloned().enumerate().collect());
            drain(w, "a tokenizer on a mapping", &mut Tokenizer::new_prepared(pairs.map_symbols(|(_, s): (usize, W::S)| s), &b.dfa), seq)
        }
        3 => { let boxed: Box<dyn SymbolReader<W::S>> = Box::new(src); drain(w, "a tokenizer on a box", &mut Tokenizer::new_prepared(boxed, &b.dfa), seq) }
        4 => {
            let stream: TaggedStream<W::S, W::S> = TaggedStream::from_reader(&mut src);
            let read = (&stream).read_symbols().map_symbols(|x| match x { TagSymbol::Untagged(s) => s, TagSymbol::Tagged(t, _) => t });
            drain(w, "a tokenizer on a tagged stream", &mut Tokenizer::new_prepared(read, &b.dfa), seq)
        }
        5 => {
            let (x, mut y) = src.split();
            let k = [0, 2, input.len()][w.choose("read by the other", 3)];
            for i in 0..k { let r = y.next_symbol(); w.require("the other reader sees the source", symbol(&r, input.get(i))); }
            let tape = Tape::new(x.map_symbols(|s| s));
            drain(w, "a tokenizer on a tape on a mapping on a split", &mut Tokenizer::new_prepared(tape, &b.dfa), seq);
            for i in k..input.len() + 1 { let r = y.next_symbol(); w.require("the other reader sees the rest", symbol(&r, input.get(i))); }
        }
        _ => {
            let (x, y) = src.split();
            let mut other = Some(y);
            let (k, read) = (w.choose("dropped after", 3), [0, 1, input.len() / 2, input.len()][w.choose("having read", 4)]);
            let mut tk = Tokenizer::new_prepared(x, &b.dfa);
            for i in 0..seq.toks.len() + 2 {
                if i == 0 { if let Some(o) = &mut other { for j in 0..read { let r = o.next_symbol(); w.require("the sibling sees the source", symbol(&r, input.get(j))); } } }
                if i == k { other = None; }
                let r = tk.next_token();
                w.note(|| format!("token {:?}", r));
                w.require("dropping the sibling changes nothing", same(&r, seq.toks.get(if twin() && i == 1 { 0 } else { i })));
            }
            w.require("it stops at the same place", B::c(tk.get_source_position() == seq.at));
        }
    }
}
fn above<W: World>(w: &mut W, kind: usize, b: &Built<W::S>, top: &[Pattern<W::S>], toks2: &[W::S], dfa2: &Dfa<W::S>, input: &[W::S], seq: &Seq<W::S>) {
    let mut tk = Tokenizer::new_prepared(VecReader::from_vec(input.to_vec()), &b.dfa);
    // the first stage, as a whole sequence
    let toks: Vec<W::S> = seq.toks.iter().map(|t| t.1.clone()).collect();
    let meant = Meant { mats: top.iter().map(|p| meaning(p, &toks)).collect(), toks: toks2.iter().map(|t| t.term()).collect(), len: toks.len() };
    let wrong = |k: usize| if twin() && k == 2 { 1 } else { k };
    match kind {
        0 => {
            let n = toks.len();
            let acc: Vec<B> = (0..=n).map(|j| B::any(meant.mats.iter().map(|m| m[0][j].clone()))).collect();
            let r = match match_pattern(dfa2.start(), &mut tk) { Accept(k, o) => Some((k, o.clone())), _ => None };
            w.note(|| format!("tokens {:?}, a match of {:?}", toks, r));
            w.observe(r.as_ref().map(|r| r.0 as u64).unwrap_or(99));
            w.require("a match over tokens is the longest prefix of the sequence of tokens", longest(&acc, r.as_ref().map(|r| wrong(r.0))));
            if let Some((k, o)) = r {
                w.require("with the lowest token", B::any(meant.mats.iter().zip(&meant.toks).map(|(m, t)| m[0][k.min(n)].and(&B::eq(o.term(), *t)))).and(&B::all(meant.mats.iter().zip(&meant.toks).map(|(m, t)| m[0][k.min(n)].not().or(&B::le(o.term(), *t))))));
            }
        }
        1 | 8 => {
            let mut run = |w: &mut W, t2: &mut dyn FnMut(bool) -> (Option<(std::ops::Range<usize>, W::S)>, Option<W::S>)| {
                let mut pos = 0;
                for _ in 0..2 * toks.len() + 2 {
                    let (r, _) = t2(false);
                    w.note(|| format!("tokens {:?}, at {} token {:?}", toks, pos, r));
                    w.observe(r.as_ref().map(|r| r.0.end as u64).unwrap_or(99));
                    match r {
                        Some((r, t)) => { let k = r.end.max(pos) - pos; w.require("the range starts at the position", B::c(r.start == pos && r.end > pos && r.end <= toks.len())); if r.end > toks.len() { return; } w.require("a token of tokens is the longest match", meant.expect(pos, wrong(k), Some(t.term()))); pos += k; }
                        None => { w.require("there is no match", meant.expect(pos, 0, None)); let (_, s) = t2(true); w.require("skipping passes one token", symbol(&s, toks.get(pos))); if s.is_none() { return; } pos += 1; }
                    }
                }
                w.require("the tokens come to an end", B::f());
            };
            if kind == 1 {
                let mut t2 = Tokenizer::new_prepared(tk, dfa2);
                run(w, &mut |skip| if skip { (None, t2.skip_input()) } else { (t2.next_token(), None) });
            } else {
                let (x, mut y) = tk.split();
                let mut t2 = Tokenizer::new_prepared(Tape::new(x), dfa2);
                run(w, &mut |skip| if skip { (None, t2.skip_input()) } else { (t2.next_token(), None) });
                for i in 0..toks.len() + 2 { let r = y.next_symbol(); w.require("the other half of the split reads the same tokens", symbol(&r, toks.get(i))); }
            }
        }
        2 => {
            let v = tk.to_vec();
            w.observe(v.len() as u64);
            w.require("all tokens up to the first place without", B::c(v.len() == toks.len()).and(&B::all(v.iter().zip(&toks).map(|(a, b)| B::eq(a.term(), b.term())))));
            // past that place it goes on
            let s = tk.skip_input();
            w.require("skipping passes the symbol there", symbol(&s, input.get(wrong(seq.at))));
            w.require("the tokenizer is where the tokens ended, and one on", B::c(tk.get_source_position() == (seq.at + 1).min(input.len())));
        }
        3 => {
            let mut tape = Tape::new(tk);
            let k = w.choose("read first", 3);
            for i in 0..k { let r = tape.next_symbol(); w.require("a tape holds the tokens", symbol(&r, toks.get(i))); }
            tape.rewind(k.min(toks.len()));
            for i in 0..toks.len() + 2 { let r = tape.next_symbol(); w.require("and gives them again", symbol(&r, toks.get(if twin() && i == 1 { 0 } else { i }))); }
            w.require("a tape ends with the tokens", B::c(tape.at_end_of_reader() && tape.get_source_position() == toks.len()));
        }
        4 => {
            let (x, y) = tk.split();
            let mut r = [x, y];
            let mut at = [0, 0];
            for step in 0..2 * toks.len() + 8 {
                let who = if step < 3 { w.choose("who", 2) } else { step % 2 };
                let s = r[who].next_symbol();
                w.require("both halves of a split read all tokens", symbol(&s, toks.get(if twin() && at[who] == 1 { 0 } else { at[who] })));
                at[who] += 1;
            }
        }
        5 => {
            let mut t2 = Tokenizer::new_prepared(tk, dfa2);
            let mut pos = 0;
            for _ in 0..toks.len() + 1 {
                let item = Iterator::next(&mut t2);
                w.note(|| format!("tokens {:?}, item {:?}", toks, item));
                w.observe(item.as_ref().map(|r| r.0.end as u64).unwrap_or(99));
                let upto = item.as_ref().map(|i| i.0.start).unwrap_or(toks.len());
                let fine = upto >= pos && item.as_ref().map(|i| i.0.end > upto && i.0.end <= toks.len()).unwrap_or(true);
                w.require("items lie in the sequence of tokens", B::c(fine));
                if !fine { return; }
                for p in pos..upto { w.require("nothing matches in between", meant.expect(p, 0, None)); }
                match item { Some((r, t)) => { w.require("an item is the longest match", meant.expect(r.start, wrong(r.end - r.start), Some(t.term()))); pos = r.end; } None => return }
            }
            w.require("iteration comes to an end", B::f());
        }
        6 => {
            let stream: TaggedStream<W::S, W::S> = TaggedStream::from_tokenized_reader(&mut tk, dfa2);
            let (mut pos, mut i) = (0, 0);
            w.note(|| format!("tokens {:?}, stream {:?}", toks, stream));
            w.observe(stream.len() as u64);
            while i < stream.len() && pos < toks.len() {
                match &stream[i] {
                    TagSymbol::Untagged(s) => { w.require("untouched tokens stay", B::eq(s.term(), toks[pos].term())); w.require("no match there", meant.expect(pos, 0, None)); pos += 1; }
                    TagSymbol::Tagged(t, inner) => {
                        let n = inner.len();
                        if n == 0 || pos + n > toks.len() { w.require("a tag holds tokens", B::f()); return; }
                        for j in 0..n { match &inner[j] { TagSymbol::Untagged(s) => w.require("a tag holds the tokens it stands for", B::eq(s.term(), toks[pos + j].term())), _ => w.require("a tag holds tokens", B::f()) } }
                        w.require("a tag is the longest match", meant.expect(pos, wrong(n), Some(t.term())));
                        pos += n;
                    }
                }
                i += 1;
            }
            w.require("no token is lost and none is added", B::c(i == stream.len() && pos == toks.len()));
        }
        _ => {
            let mut boxed: Box<dyn SymbolReader<W::S>> = Box::new(tk.map_symbols(|t| t));
            for i in 0..toks.len() + 2 { let r = boxed.next_symbol(); w.require("a mapping in a box reads the tokens", symbol(&r, toks.get(if twin() && i == 1 { 0 } else { i }))); }
        }
    }
}
impl Harness for C24 {
    fn ncases(&self) -> usize { self.cases.len() }
    fn describe(&self, c: usize) -> String {
        let (c, s) = &self.cases[c];
        match s { Stage::Below(k) => format!("tokens {} from {}, inputs of length {}", c.text(), BELOW[*k], c.len), Stage::Above(k, q) => format!("{} of {} on the tokens {}, inputs of length {}", ABOVE[*k], q.iter().map(|p| p.text()).collect::<Vec<_>>().join(" , "), c.text(), c.len) }
    }
    fn hash_seed(&self, c: usize) -> u64 { self.cases[c].0.seed }
    fn run<W: World>(&self, case: usize, w: &mut W) {
        let (c, stage) = &self.cases[case];
        let mut b = build(w, &c.pats);
        let (mut top, mut toks2) = (vec![], vec![]);
        if let Stage::Above(_, q) = stage {
            for sh in q { let p = sh.make_in(w, &mut b.ranks); let t = w.sym("token of tokens"); w.note(|| format!("token {:?} for {:?}", t, p)); top.push(p); toks2.push(t); }
        }
        let mut tm = TokenMatcher::new();
        for (p, t) in top.iter().zip(&toks2) { tm.add_pattern(p.clone(), t.clone()); }
        let dfa2: Dfa<W::S> = tm.prepare_to_match();
        let input = c.input(w, &mut b.pool);
        w.note(|| format!("input {:?}", input));
        let meant = Meant::new(&b, &input);
        w.branch(|w| {
            let seq = match sequence(w, &b.dfa, &input, &meant) { Some(s) => s, None => return };
            match stage { Stage::Below(k) => below(w, *k, &b, &input, &seq), Stage::Above(k, _) => above(w, *k, &b, &top, &toks2, &dfa2, &input, &seq) }
        });
    }
}
