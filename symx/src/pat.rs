//! Pattern shapes with symbolic symbols, and the reference meaning of a pattern as a formula.
use crate::engine::*;
use crate::expr::*;
use concordance::*;

/// The shared symbols of a case, ascending
pub struct Pool<S> { pub v: Vec<S> }
impl<S: Symbol> Pool<S> {
    pub fn new() -> Pool<S> { Pool { v: vec![] } }
    pub fn get<W: World<S = S>>(&mut self, w: &mut W, i: u8) -> S {
        while self.v.len() <= i as usize {
            let s = w.sym(&format!("{}", letter(self.v.len())));
            if let Some(p) = self.v.last() { w.assume_lt(p, &s); }
            self.v.push(s);
        }
        self.v[i as usize].clone()
    }
}

/// the name of the i-th shared symbol
pub fn letter(i: usize) -> char { std::char::from_u32(b'a' as u32 + i as u32).unwrap() }

#[derive(Clone, Debug, PartialEq)]
/// Lit and Rng take fresh symbols; Sy and Rs take symbols of a pool a < b < c < ... that the whole case shares
/// Tok: what the pattern matches is given the token of that rank among the ranked tokens of the set
pub enum Sh { Tok(u8, Box<Sh>), Eps, Lit(usize), Rng, Sy(Vec<u8>), Rs(u8, u8), Inf(u32, Box<Sh>), Rep(u32, u32, Box<Sh>), All(Vec<Sh>), Any(Vec<Sh>) }

impl Sh {
    /// the token for it: any symbol, or one of the ranked ones (which ascend)
    pub fn token<W: World>(&self, w: &mut W, ranks: &mut Pool<W::S>) -> W::S { match self { Sh::Tok(i, _) => ranks.get(w, *i), _ => w.sym("token") } }
    pub fn text(&self) -> String {
        match self {
            Sh::Eps => "ε".into(),
            Sh::Tok(i, x) => format!("{}→{}", x.text(), i),
            Sh::Lit(n) => format!("lit{}", n),
            Sh::Rng => "[r]".into(),
            Sh::Sy(v) => v.iter().map(|i| letter(*i as usize)).collect(),
            Sh::Rs(i, j) => format!("[{}-{}]", letter(*i as usize), letter(*j as usize)),
            Sh::Inf(n, x) => format!("{}{{{},}}", x.text(), n),
            Sh::Rep(a, b, x) => format!("{}{{{}..{}}}", x.text(), a, b),
            Sh::All(v) => format!("({})", v.iter().map(|x| x.text()).collect::<Vec<_>>().join("·")),
            Sh::Any(v) => format!("({})", v.iter().map(|x| x.text()).collect::<Vec<_>>().join("|")),
        }
    }
    pub fn vars(&self) -> usize {
        match self { Sh::Eps | Sh::Sy(_) | Sh::Rs(..) => 0, Sh::Lit(n) => *n, Sh::Rng => 2, Sh::Tok(_, x) | Sh::Inf(_, x) | Sh::Rep(_, _, x) => x.vars(), Sh::All(v) | Sh::Any(v) => v.iter().map(|x| x.vars()).sum() }
    }
    /// how many shared symbols it uses
    pub fn letters(&self) -> usize {
        match self {
            Sh::Sy(v) => v.iter().map(|i| *i as usize + 1).max().unwrap_or(0),
            Sh::Rs(_, j) => *j as usize + 1,
            Sh::Tok(_, x) | Sh::Inf(_, x) | Sh::Rep(_, _, x) => x.letters(),
            Sh::All(v) | Sh::Any(v) => v.iter().map(|x| x.letters()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// one of the words it matches, where it takes no fresh symbols
    pub fn sample(&self, k: usize) -> Option<String> {
        Some(match self {
            Sh::Eps | Sh::Lit(0) => String::new(),
            Sh::Lit(_) | Sh::Rng => return None,
            Sh::Tok(_, x) => x.sample(k)?,
            Sh::Sy(v) => v.iter().map(|i| letter(*i as usize)).collect(),
            Sh::Rs(i, j) => letter(*i as usize + k % (*j - *i + 1) as usize).to_string(),
            Sh::Inf(n, x) => x.sample(k)?.repeat(*n as usize + k % 3),
            Sh::Rep(a, b, x) => if a < b { x.sample(k)?.repeat(*a as usize + k % (b - a) as usize) } else { return None },
            Sh::All(v) => v.iter().map(|x| x.sample(k)).collect::<Option<Vec<_>>>()?.concat(),
            Sh::Any(v) => if v.is_empty() { return None } else { v[k % v.len()].sample(k)? },
        })
    }
    /// instantiates the shape with symbolic symbols
    pub fn make<W: World>(&self, w: &mut W) -> Pattern<W::S> { self.make_in(w, &mut Pool::new()) }
    pub fn make_in<W: World>(&self, w: &mut W, pool: &mut Pool<W::S>) -> Pattern<W::S> {
        match self {
            Sh::Sy(v) => Pattern::Match(v.iter().map(|i| pool.get(w, *i)).collect()),
            Sh::Rs(i, j) => { let hi = pool.get(w, *j); let lo = pool.get(w, *i); Pattern::MatchRange(lo, hi) }
            Sh::Eps => Pattern::Epsilon,
            Sh::Tok(_, x) => x.make_in(w, pool),
            Sh::Lit(n) => Pattern::Match((0..*n).map(|_| w.sym("lit")).collect()),
            Sh::Rng => { let a = w.sym("lo"); let b = w.sym("hi"); w.assume_le(&a, &b); Pattern::MatchRange(a, b) }
            Sh::Inf(n, x) => Pattern::RepeatInfinite(*n, Box::new(x.make_in(w, pool))),
            Sh::Rep(a, b, x) => Pattern::Repeat(*a..*b, Box::new(x.make_in(w, pool))),
            Sh::All(v) => Pattern::MatchAll(v.iter().map(|x| x.make_in(w, pool)).collect()),
            Sh::Any(v) => Pattern::MatchAny(v.iter().map(|x| x.make_in(w, pool)).collect()),
        }
    }
}

/// m[i][j]: "input[i..j] is in the language"
pub type Mat = Vec<Vec<B>>;

pub fn unit(l: usize) -> Mat { (0..=l).map(|i| (0..=l).map(|j| B::c(i == j)).collect()).collect() }
pub fn zero(l: usize) -> Mat { (0..=l).map(|_| (0..=l).map(|_| B::f()).collect()).collect() }
pub fn cat(a: &Mat, b: &Mat) -> Mat {
    let l = a.len() - 1;
    (0..=l).map(|i| {
        let mut row: Vec<Vec<B>> = vec![vec![]; l + 1];
        for k in i..=l {
            if a[i][k].is() == Some(false) { continue; }
            for j in k..=l { if b[k][j].is() != Some(false) { row[j].push(a[i][k].and(&b[k][j])); } }
        }
        row.into_iter().map(|v| B::any(v)).collect()
    }).collect()
}
pub fn alt(a: &Mat, b: &Mat) -> Mat { let l = a.len() - 1; (0..=l).map(|i| (0..=l).map(|j| a[i][j].or(&b[i][j])).collect()).collect() }
pub fn pow(a: &Mat, n: u32) -> Mat { let mut r = unit(a.len() - 1); for _ in 0..n { r = cat(&r, a); } r }
pub fn kleene(a: &Mat) -> Mat {
    let l = a.len() - 1;
    // row by row from the end: star[i][j] = (i == j) or some non-empty first step i -> k
    let mut r = unit(l);
    for i in (0..=l).rev() { for j in i + 1..=l { r[i][j] = B::any((i + 1..=j).map(|k| a[i][k].and(&r[k][j]))); } }
    r
}
fn step<S: Symbol>(inp: &[S], f: impl Fn(Term) -> B) -> Mat {
    let l = inp.len();
    let mut r = zero(l);
    for i in 0..l { r[i][i + 1] = f(inp[i].term()); }
    r
}
/// The reference semantics, written from the documentation alone
pub fn meaning<S: Symbol>(p: &Pattern<S>, inp: &[S]) -> Mat {
    let l = inp.len();
    match p {
        Pattern::Epsilon => unit(l),
        Pattern::Match(v) => {
            let mut r = zero(l);
            for i in 0..=l { if i + v.len() <= l { r[i][i + v.len()] = B::all(v.iter().zip(&inp[i..]).map(|(s, x)| B::eq(x.term(), s.term()))); } }
            r
        }
        Pattern::MatchRange(a, b) => { let (a, b) = (a.term(), b.term()); step(inp, |x| B::le(a, x).and(&B::le(x, b))) }
        Pattern::RepeatInfinite(n, x) => { let m = meaning(x, inp); cat(&pow(&m, *n), &kleene(&m)) }
        Pattern::Repeat(r, x) => {
            let m = meaning(x, inp);
            let mut acc = zero(l);
            for n in r.start..r.end { acc = alt(&acc, &pow(&m, n)); }
            acc
        }
        Pattern::MatchAll(v) => { let mut r = unit(l); for x in v { r = cat(&r, &meaning(x, inp)); } r }
        Pattern::MatchAny(v) => { let mut r = zero(l); for x in v { r = alt(&r, &meaning(x, inp)); } r }
    }
}

/// "k is the longest accepted prefix" (None: no prefix is accepted), given acc[j] = input[..j] accepted
pub fn longest(acc: &[B], k: Option<usize>) -> B {
    match k {
        None => B::all(acc.iter().map(|b| b.not())),
        Some(k) if k < acc.len() => B::all(std::iter::once(acc[k].clone()).chain(acc[k + 1..].iter().map(|b| b.not()))),
        Some(_) => B::f(),
    }
}
