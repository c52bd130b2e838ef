//! Enumeration of pattern shapes
use crate::pat::Sh::{self, *};

fn unary(full: bool) -> Vec<Box<dyn Fn(Sh) -> Sh>> {
    let mut v: Vec<Box<dyn Fn(Sh) -> Sh>> = vec![];
    for n in 0..3 { v.push(Box::new(move |x| Inf(n, Box::new(x)))); }
    for (a, b) in [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (0, 3)] { v.push(Box::new(move |x| Rep(a, b, Box::new(x)))); }
    if full {
        for (a, b) in [(0, 0), (2, 2), (3, 2), (2, 4)] { v.push(Box::new(move |x| Rep(a, b, Box::new(x)))); }
        v.push(Box::new(|x| Inf(3, Box::new(x))));
        v.push(Box::new(|x| All(vec![x])));
        v.push(Box::new(|x| Any(vec![x])));
    }
    v
}

pub fn atoms() -> Vec<Sh> { vec![Rng, Lit(1), Lit(2), Eps, Lit(0)] }

/// every shape with exactly `n` nodes and at most `maxv` symbol variables
pub fn sized(n: usize, maxv: usize, full: bool) -> Vec<Sh> {
    let mut r = vec![];
    if n == 1 { r = atoms(); if full { r.push(All(vec![])); r.push(Any(vec![])); r.push(Lit(3)); } }
    else {
        for f in unary(full) { for x in sized(n - 1, maxv, full) { r.push(f(x)); } }
        for a in 1..n.saturating_sub(1) {
            let b = n - 1 - a;
            if b < 1 { continue; }
            for x in sized(a, maxv, false) { for y in sized(b, maxv, false) {
                if x.vars() + y.vars() > maxv { continue; }
                r.push(All(vec![x.clone(), y.clone()]));
                r.push(Any(vec![x.clone(), y.clone()]));
            } }
        }
    }
    r.retain(|s| s.vars() <= maxv);
    r
}

pub fn star(x: Sh) -> Sh { Inf(0, Box::new(x)) }
pub fn plus(x: Sh) -> Sh { Inf(1, Box::new(x)) }
pub fn opt(x: Sh) -> Sh { Rep(0, 2, Box::new(x)) }
pub fn rep(a: u32, b: u32, x: Sh) -> Sh { Rep(a, b, Box::new(x)) }
pub fn all(v: &[Sh]) -> Sh { All(v.to_vec()) }
pub fn any(v: &[Sh]) -> Sh { Any(v.to_vec()) }

/// Larger shapes: several ranges, nested repetition, shared prefixes
pub fn picked() -> Vec<Sh> {
    vec![
        any(&[Rng, Rng]), all(&[Rng, Rng]), any(&[Rng, Rng, Rng]), all(&[Rng, Lit(1), Rng]),
        any(&[all(&[Rng, Lit(1)]), all(&[Lit(1), Rng])]),
        any(&[all(&[Rng, Lit(1)]), Rng]),
        star(any(&[Rng, Lit(1)])), star(all(&[Rng, Lit(1)])), plus(any(&[all(&[Lit(1), Lit(1)]), Lit(1)])),
        all(&[star(Rng), Rng]), all(&[star(Rng), Lit(2)]), all(&[opt(Rng), opt(Rng)]), all(&[star(Lit(1)), star(Lit(1)), Lit(1)]),
        star(star(Rng)), plus(opt(Rng)), opt(plus(Lit(1))), star(any(&[Eps, Rng])), all(&[Eps, Rng, Eps]), any(&[Eps, Rng, Lit(2)]),
        rep(1, 3, any(&[Rng, Lit(2)])), rep(0, 3, all(&[Lit(1), opt(Rng)])), star(all(&[opt(Rng), opt(Lit(1))])),
        any(&[star(Rng), all(&[Rng, Rng])]), all(&[any(&[Rng, Lit(2)]), any(&[Lit(1), Eps])]),
        star(all(&[star(Rng), Lit(1)])), any(&[Lit(2), Lit(2)]), any(&[Lit(2), Lit(1), Rng]), Lit(3), any(&[Lit(3), Rng]),
        all(&[any(&[Lit(1), Eps]), any(&[Rng, Eps])]), star(any(&[Lit(2), Lit(1)])), rep(2, 4, any(&[Lit(1), Rng])),
        all(&[star(any(&[Rng, Lit(1)])), Lit(1)]), Inf(2, Box::new(any(&[Rng, Lit(1)]))), all(&[plus(Rng), opt(Lit(1)), plus(Lit(1))]),
        rep(1, 2, rep(1, 3, Rng)), star(rep(2, 3, Rng)), rep(0, 2, star(Lit(2))), any(&[plus(Lit(1)), plus(Lit(1)), plus(Rng)]),
    ]
}

/// Many ranges at once: costly, few input symbols
pub fn heavy() -> Vec<Sh> {
    vec![
        any(&[Rng, Rng, Rng, Rng]), all(&[any(&[Rng, Rng]), any(&[Rng, Lit(1)])]), all(&[Rng, Rng, Rng]),
        star(any(&[Rng, Rng, Rng])), any(&[all(&[Rng, Rng]), all(&[Rng, Lit(1)])]), any(&[star(Rng), star(Rng), Rng]),
        any(&[Rng, Rng, Lit(1), Lit(1)]), all(&[star(any(&[Rng, Rng])), Rng]), any(&[Lit(2), all(&[Rng, Rng]), Lit(1)]),
    ]
}

pub fn sy(t: &str) -> Sh { Sy(t.bytes().map(|b| b - b'a').collect()) }
pub fn rs(a: u8, b: u8) -> Sh { Rs(a - b'a', b - b'a') }

/// every shape with exactly `n` nodes over shared symbols: choices between literals and ranges that
/// start alike, repetitions that overlap what follows
pub fn shared(n: usize, letters: u8) -> Vec<Sh> {
    let mut memo: Vec<Vec<Sh>> = vec![vec![]];
    for k in 1..=n {
        let mut r = vec![];
        if k == 1 {
            r = vec![sy("a"), sy("b"), rs(b'a', b'b'), sy("ab"), Eps];
            if letters >= 3 { r.extend(vec![sy("c"), rs(b'b', b'c'), sy("ac")]); }
        } else {
            for x in &memo[k - 1] {
                for f in [(0u32, None), (1, None), (2, None), (0, Some(2u32)), (1, Some(3)), (2, Some(4))] {
                    // a repetition of a repetition more than once is left to `sized`
                    if n >= 4 && matches!(x, Inf(..) | Rep(..)) && f.0 == 2 { continue; }
                    r.push(match f { (n, None) => Inf(n, Box::new(x.clone())), (a, Some(b)) => Rep(a, b, Box::new(x.clone())) });
                }
            }
            for a in 1..k.saturating_sub(1) { for x in &memo[a] { for y in &memo[k - 1 - a] {
                r.push(All(vec![x.clone(), y.clone()]));
                if x != y { r.push(Any(vec![x.clone(), y.clone()])); }
            } } }
            if k == 4 { for x in &memo[1] { for y in &memo[1] { for z in &memo[1] { r.push(All(vec![x.clone(), y.clone(), z.clone()])); r.push(Any(vec![x.clone(), y.clone(), z.clone()])); } } } }
        }
        memo.push(r);
    }
    memo.pop().unwrap()
}

/// larger trees over shared symbols
pub fn woven() -> Vec<Sh> {
    let ab = || rs(b'a', b'b');
    vec![
        any(&[sy("ab"), sy("ac"), sy("ad"), sy("a")]), any(&[all(&[sy("a"), star(sy("b"))]), all(&[sy("a"), star(sy("a"))]), sy("ab"), all(&[ab(), sy("c")])]),
        star(any(&[sy("ab"), sy("ba")])), all(&[star(ab()), sy("a"), ab(), ab()]), rep(2, 5, sy("ab")), Inf(4, Box::new(sy("a"))), all(&[star(ab()), sy("abb")]),
        star(any(&[sy("aa"), sy("aaa")])), plus(any(&[sy("aa"), sy("aaa")])), all(&[any(&[sy("a"), sy("ab")]), any(&[sy("c"), sy("bcd")]), star(sy("d"))]),
        all(&[opt(sy("a")), opt(sy("a")), opt(sy("a")), sy("aaa")]), any(&[sy("abc"), sy("abd"), sy("acb"), sy("bca"), sy("b")]), all(&[sy("a"), star(rs(b'b', b'd')), sy("a")]),
        all(&[sy("ab"), star(any(&[sy("a"), rs(b'c', b'd'), all(&[plus(sy("b")), rs(b'c', b'd')])])), plus(sy("b")), sy("a")]),
        star(all(&[star(sy("a")), star(sy("b"))])), star(all(&[plus(sy("a")), opt(sy("b"))])), plus(all(&[star(sy("a")), sy("b"), star(sy("a"))])), star(star(star(sy("a")))), plus(plus(plus(ab()))),
        rep(1, 3, star(all(&[sy("a"), opt(sy("b"))]))), Inf(2, Box::new(Inf(2, Box::new(sy("a"))))), Inf(2, Box::new(any(&[sy("a"), Eps]))), rep(2, 4, rep(2, 4, sy("a"))), rep(0, 3, rep(0, 3, rep(0, 2, sy("a")))), Inf(3, Box::new(all(&[sy("a"), opt(sy("b"))]))),
        any(&[rs(b'a', b'c'), rs(b'b', b'd'), all(&[rs(b'a', b'd'), sy("a")])]), any(&[all(&[rs(b'a', b'c'), sy("a")]), all(&[rs(b'b', b'd'), sy("b")]), all(&[sy("b"), sy("c")])]),
        star(any(&[rs(b'a', b'c'), all(&[rs(b'b', b'd'), sy("a")])])), any(&[sy("aaaaa"), plus(sy("a"))]), all(&[star(sy("a")), any(&[sy("aab"), sy("ab")])]), any(&[sy("aabaa"), sy("aabab"), sy("aaba"), sy("aab")]),
        all(&[rep(1, 4, ab()), rep(1, 4, sy("a")), sy("b")]), all(&[star(ab()), sy("a"), star(ab()), sy("b"), star(ab())]), star(all(&[sy("a"), any(&[sy("b"), all(&[sy("b"), star(sy("a"))])])])),
        any(&[star(sy("a")), star(sy("b")), star(ab())]), any(&[Eps, star(Eps), sy("a"), all(&[])]), all(&[any(&[sy("a"), Eps]), any(&[sy("a"), Eps]), any(&[sy("a"), Eps]), any(&[sy("b"), Eps])]),
        any(&[any(&[any(&[sy("a"), sy("ab")]), sy("aba")]), sy("abab")]), all(&[all(&[all(&[sy("a"), star(sy("b"))]), sy("a")]), star(sy("b"))]),
        any(&[all(&[sy("a"), rs(b'a', b'b')]), all(&[sy("b"), rs(b'b', b'c')]), all(&[sy("c"), rs(b'c', b'd')]), all(&[sy("d"), rs(b'a', b'd')])]),
        all(&[sy("a"), rep(0, 4, any(&[sy("b"), sy("ba")])), sy("a")]), star(any(&[sy("a"), sy("b"), sy("c"), sy("d"), sy("aa")])),
    ]
}

/// long words, large counts, wide choices, deep nesting; with the length of input each is worth
pub fn large(th: bool) -> Vec<(Sh, usize)> {
    let ab = || rs(b'a', b'b');
    let word = |n: usize| Sy((0..n).map(|i| [0u8, 1, 0, 0, 1, 1, 0, 1][i * 5 / 3 % 8]).collect());
    let nest = |n: usize, f: &dyn Fn(usize, Sh) -> Sh| (0..n).fold(sy("a"), |x, i| f(i, x));
    let mut v = vec![
        (word(12), 13), (word(24), 24), (any(&[word(17), word(9)]), 18), (plus(word(7)), 15),
        (rep(0, 18, sy("a")), 18), (Inf(12, Box::new(sy("a"))), 14), (rep(7, 12, sy("a")), 13), (rep(3, 9, sy("ab")), 17), (Inf(5, Box::new(sy("ab"))), 13), (rep(9, 10, ab()), 10), (rep(0, 9, opt(sy("a"))), 9), (Inf(6, Box::new(any(&[sy("a"), sy("ab")]))), 8),
        (Any((0..12).map(|i| Sy(vec![i])).collect()), 2), (plus(Any((0..9).map(|i| Sy(vec![i])).collect())), 2), (Any((0..9).map(|i| Sy(vec![0, i])).collect()), 3), (Any((0..8).map(|i| Rs(i, i + 3)).collect()), 1), (Any((0..6).map(|i| All(vec![Rs(i, i + 2), Sy(vec![i])])).collect()), 2),
        (Any((0..10).map(|i| word(i + 1)).collect()), 11), (All((0..10).map(|i| if i % 3 == 2 { opt(sy("b")) } else { opt(sy("a")) }).collect()), 6), (All((0..12).map(|i| Sy(vec![i % 3])).collect()), 13), (All((0..6).map(|i| star(Sy(vec![i % 2]))).collect()), 6),
        (all(&[star(ab()), sy("a"), ab(), ab(), ab(), ab()]), if th { 8 } else { 6 }), (all(&[star(ab()), word(6)]), if th { 9 } else { 7 }),
        (nest(8, &|i, x| if i % 2 == 0 { any(&[x, Sy(vec![1])]) } else { all(&[x, Sy(vec![0])]) }), 6), (nest(9, &|_, x| all(&[x, sy("b")])), 11), (nest(9, &|_, x| any(&[all(&[sy("b"), x]), sy("a")])), 11), (nest(6, &|i, x| if i % 2 == 0 { star(x) } else { plus(x) }), 4), (nest(5, &|_, x| opt(all(&[x, sy("b")]))), 7), (nest(4, &|_, x| rep(1, 3, x)), 8), (nest(4, &|i, x| star(all(&[x, Sy(vec![i as u8 % 3])]))), 5),
    ];
    if th { v.extend(vec![(word(48), 48), (rep(0, 40, sy("a")), 40), (Inf(33, Box::new(sy("a"))), 35), (Any((0..24).map(|i| Sy(vec![i])).collect()), 2), (rep(20, 33, sy("a")), 33), (Any((0..20).map(|i| word(i + 1)).collect()), 20), (all(&[star(ab()), sy("a"), ab(), ab(), ab(), ab(), ab(), ab()]), 9), (Inf(9, Box::new(any(&[sy("a"), sy("ab")]))), 11)]); }
    v
}
