//! C15: tagging ranges
use concordance::*;
use concordance::TagSymbol::*;
use crate::sx::*;

type S = TaggedStream<u8, u16>;
#[derive(Clone, PartialEq)]
enum M { U(u8), T(u16, Vec<M>) }

fn same(a: &TagSymbol<u8, u16>, b: &M) -> bool {
    match (a, b) {
        (Untagged(x), M::U(y)) => { note(*x as u64); x == y }
        (Tagged(t, s), M::T(u, v)) => { note(*t as u64); (t == u) & same_stream(s, v) }
        _ => false,
    }
}
fn same_stream(s: &S, v: &[M]) -> bool {
    note(s.len() as u64);
    if s.len() != v.len() { return false; }
    let mut ok = true;
    for i in 0..v.len() { ok &= same(&s[i], &v[i]); }
    // the reader must agree with the index
    let mut r = s.read_symbols();
    for i in 0..v.len() { match r.next_symbol() { Some(x) => ok &= same(&x, &v[i]), None => return false } }
    ok & r.next_symbol().is_none()
}
fn plain(len: usize) -> (S, Vec<M>) {
    let v: Vec<u8> = (0..len).map(|_| byte()).collect();
    (TaggedStream::from_reader(&mut v.read_symbols()), v.iter().map(|x| M::U(*x)).collect())
}
fn tag() -> u16 { sx_any(16) as u16 }

/// in-place tagging of any range, accepted or refused
fn tag_once(s: &mut S, v: &mut Vec<M>) -> bool {
    let (a, b, t) = (word(), word(), tag());
    let bad = (a > b) | (b > v.len());
    let p = panics(|| s.tag(t, a..b));
    note(p as u64);
    check(p == bad, "tagging in place is refused exactly for a range that is not in the stream");
    if p { return false; }
    let (a, b) = (pin(a), pin(b));
    let inner: Vec<M> = v.drain(a..b).collect();
    v.insert(a, M::T(t, inner));
    check(same_stream(s, v), "tagging in place replaces exactly the range by one tag holding exactly its symbols");
    true
}
/// `depth` in-place tags first, then `n` ranges at once
fn with_tags(len: usize, depth: usize, n: usize) {
    let (mut s, mut v) = plain(len);
    for _ in 0..depth { if !tag_once(&mut s, &mut v) { return; } }
    let before = v.clone();
    let rs: Vec<(usize, usize, u16)> = (0..n).map(|_| (word(), word(), tag())).collect();
    let mut bad = false;
    let mut last = 0;
    for r in &rs { bad |= (r.0 < last) | (r.0 > r.1) | (r.1 > v.len()); last = r.1; }
    let mut got = None;
    let p = panics(|| got = Some(s.with_tags(rs.iter().map(|r| (r.0..r.1, r.2)))));
    note(p as u64);
    check(p == bad, "tags are refused exactly when they overlap, are out of order or outside the stream");
    check(same_stream(&s, &before), "the original is untouched");
    if p { return; }
    let mut want = vec![];
    let mut i = 0;
    for r in &rs {
        let (a, b) = (pin(r.0), pin(r.1));
        while i < a { want.push(v[i].clone()); i += 1; }
        want.push(M::T(r.2, v[a..b].to_vec()));
        i = b;
    }
    while i < v.len() { want.push(v[i].clone()); i += 1; }
    if twin() && n > 0 && want.len() == 2 { want.pop(); }
    check(same_stream(&got.unwrap(), &want), "the tagged copy holds one tag for each range and every other symbol in order");
}
fn range(len: usize, depth: usize) {
    let (mut s, mut v) = plain(len);
    for _ in 0..depth { if !tag_once(&mut s, &mut v) { return; } }
    let (a, b, t) = (word(), word(), tag());
    let mut got = None;
    let p = panics(|| got = Some(s.tag_range(a..b, t)));
    check(p == ((a > b) | (b > v.len())), "a range outside the stream is refused");
    check(same_stream(&s, &v), "the original is untouched");
    if p { return; }
    let (a, b) = (pin(a), pin(b));
    check(same(&got.unwrap(), &M::T(t, v[a..b].to_vec())), "a tag made from a range holds exactly its symbols");
}
fn in_place(len: usize, depth: usize) {
    let (mut s, mut v) = plain(len);
    check(same_stream(&s, &v), "a stream made from a reader holds its symbols");
    for _ in 0..depth { if !tag_once(&mut s, &mut v) { return; } }
}

/// many ranges at once, all of one width and one distance apart, one of them perhaps moved back by one
fn many(n: usize) {
    let (w, g, k) = (choose(4), choose(3), choose(n + 1));
    let len = n * (w + g) + choose(2);
    let (s, v) = plain(len);
    let mut rs: Vec<(usize, usize, u16)> = (0..n).map(|i| (i * (w + g), i * (w + g) + w, tag())).collect();
    if k < n { if rs[k].0 == 0 { assume(false); } rs[k].0 -= 1; rs[k].1 -= 1; }
    let bad = rs.windows(2).any(|p| p[0].1 > p[1].0 || p[1].0 > p[1].1);
    let mut got = None;
    let p = panics(|| got = Some(s.with_tags(rs.iter().map(|r| (r.0..r.1, r.2)))));
    note(p as u64);
    check(p == bad, "tags are refused exactly when they overlap, are out of order or outside the stream");
    check(same_stream(&s, &v), "the original is untouched");
    if p { return; }
    let mut want = vec![];
    let mut i = 0;
    for r in &rs { want.extend(v[i..r.0].iter().cloned()); want.push(M::T(r.2, v[r.0..r.1].to_vec())); i = r.1; }
    want.extend(v[i..].iter().cloned());
    check(same_stream(&got.unwrap(), &want), "the tagged copy holds one tag for each range and every other symbol in order");
}
fn alike(s: &S, v: &[M]) -> bool {
    if s.len() != v.len() { return false; }
    let mut ok = true;
    for i in 0..v.len() { ok &= match (&s[i], &v[i]) { (Untagged(x), M::U(y)) => x == y, (Tagged(t, s), M::T(u, v)) => (t == u) & alike(s, v), _ => false }; }
    ok
}
/// tags around tags around tags
fn deep(levels: usize) {
    let (mut s, mut v) = plain(3);
    let how = choose(4);
    for k in 0..levels {
        let (a, b, t) = (if how == 1 { v.len() - 1 } else { 0 }, if how == 2 { 1 } else { v.len() }, tag());
        let inner: Vec<M> = v.drain(a..b).collect();
        v.insert(a, M::T(t, inner));
        if how == 3 && k % 2 == 1 { s = s.with_tags(vec![(a..b, t)].into_iter()); } else { s.tag(t, a..b); }
    }
    check(alike(&s, &v), "tags within tags are kept");
    check(s.clone() == s, "a stream equals its clone");
    if levels > 0 {
        // one symbol changed at the bottom makes a different stream
        let mut o: &S = &s;
        let mut depth = 0;
        while let Some(Tagged(_, i)) = (0..o.len()).map(|i| &o[i]).find(|x| if let Tagged(..) = x { true } else { false }) { o = i; depth += 1; }
        check(depth == levels, "the tags lie as deep as they were put");
        let inner = s.tag_range(0..s.len(), 7);
        if let Tagged(7, st) = &inner { check(alike(st, &v), "a tag made from a range holds exactly its symbols") } else { check(false, "a tag made from a range has its tag") }
    }
}

pub fn list(tier: &str, out: &mut Vec<(u32, String)>) {
    let t = tier == "thorough";
    for l in 0..(if t { 7 } else { 5 }) {
        for d in 0..(if t { 3 } else { 2 }) {
            for n in 0..(if t { 4 } else { 3 }) {
                if l + d * 2 + n > if t { 10 } else { 7 } { continue; }
                out.push((1500000 + l * 100 + d * 10 + n, format!("with_tags: {} ranges anywhere on a stream of {} after {} in-place tags{}", n, l, d, if (l, d, n) == (3, 0, 2) { " [twin]" } else { "" })));
            }
            out.push((1510000 + l * 100 + d, format!("tag_range on a stream of {} after {} in-place tags", l, d)));
        }
        for d in 0..(if t { 4 } else { 3 }) { out.push((1520000 + l * 100 + d, format!("{} in-place tags on a stream of {}", d, l))); }
    }
    out.push((1500603, "with_tags: 3 ranges anywhere on a stream of 6 after 0 in-place tags".into()));
    for (l, d, n) in if t { vec![(12, 0, 2), (12, 1, 1), (40, 0, 1), (70, 0, 1), (20, 0, 2)] } else { vec![(10, 0, 2), (10, 1, 1), (33, 0, 1)] } { out.push((1500000 + l * 100 + d * 10 + n, format!("with_tags: {} ranges anywhere on a stream of {} after {} in-place tags", n, l, d))); }
    for l in if t { vec![12, 40, 90] } else { vec![12, 40] } { out.push((1510000 + l * 100, format!("tag_range on a stream of {} after 0 in-place tags", l))); out.push((1520001 + l * 100, format!("1 in-place tags on a stream of {}", l))); }
    out.push((1520902, "2 in-place tags on a stream of 9".into()));
    for n in if t { vec![4, 9, 17, 33] } else { vec![4, 9, 17] } { out.push((1530000 + n, format!("{} ranges at once, evenly spaced or one moved back", n))); }
    for n in if t { vec![1, 2, 5, 9, 17, 40] } else { vec![1, 5, 9, 17] } { out.push((1540000 + n, format!("{} tags within each other", n))); }
    out.sort(); out.dedup_by_key(|x| x.0);
}
pub fn run(k: u32) {
    let (l, d, n) = ((k % 10000 / 100) as usize, (k % 100 / 10) as usize, (k % 10) as usize);
    match k / 10000 { 0 => with_tags(l, d, n), 1 => range(l, n), 2 => in_place(l, n), 3 => many((k % 10000) as usize), _ => deep((k % 10000) as usize) }
}
