//! C18 / C19 / C13 / C16 on real text: `str` and `char` have conversions of their own
use concordance::*;
use crate::sx::*;

fn any_char() -> char { <char as crate::h_leaf::Sy>::any() }
fn chars(n: usize) -> Vec<char> { (0..n).map(|_| any_char()).collect() }
fn text(v: &[char]) -> String { v.iter().collect() }
fn cat(a: &[char], b: &[char]) -> Vec<char> { a.iter().chain(b).cloned().collect() }

/// length of the longest of the words that the input starts with
fn longest(words: &[Vec<char>], input: &[char]) -> Option<usize> {
    let mut best = None;
    for w in words {
        if w.len() > input.len() { continue; }
        let mut eq = true;
        for i in 0..w.len() { eq &= w[i] == input[i]; }
        if eq && best.map_or(true, |b| b < w.len()) { best = Some(w.len()); }
    }
    best
}
fn same(got: Option<usize>, want: Option<usize>, label: &'static str) {
    note(got.map_or(99, |x| x as u64));
    let want = if twin() && want == Some(2) { Some(1) } else { want };
    check(got == want, label);
}
fn run(d: &SymbolRangeDfa<char, ()>, s: &str) -> Option<usize> { matches_prepared(s, d) }

/// every way of turning a text into a matcher
const CONV: [&str; 11] = ["exactly(text)", "text.into_pattern()", "text.to_pattern()", "text.to_ndfa(()) prepared", "text.prepare_to_match()", "exactly(&vector)", "exactly(&[..])", "slice.to_ndfa(()) prepared", "&ToPattern object prepared", "exactly(boxed pattern)", "ToPattern object to_ndfa"];
fn convert(kind: u32, s: &str, v: &Vec<char>) -> SymbolRangeDfa<char, ()> {
    match kind {
        0 => { let p: Pattern<char> = exactly(s); p.prepare_to_match() }
        1 => { let p: Pattern<char> = s.into_pattern(); p.prepare_to_match() }
        2 => { let p: Pattern<char> = s.to_pattern(); p.prepare_to_match() }
        3 => s.to_ndfa(()).prepare_to_match(),
        4 => s.prepare_to_match(),
        5 => { let p: Pattern<char> = exactly(v); p.prepare_to_match() }
        6 => { let p: Pattern<char> = exactly(&v[..]); p.prepare_to_match() }
        7 => v[..].to_ndfa(()).prepare_to_match(),
        8 => { let o: Box<dyn ToPattern<char>> = Box::new(s.to_pattern()); let r: &dyn ToPattern<char> = &*o; r.prepare_to_match() }
        9 => { let p: Pattern<char> = exactly(Box::new(s.to_pattern())); p.prepare_to_match() }
        _ => { let o: Box<dyn ToPattern<char>> = Box::new(v.clone()); let n = (*o).to_ndfa(()); n.prepare_to_match() }
    }
}
fn conversion(kind: u32, n: usize, len: usize) {
    let v = chars(n);
    let s = text(&v);
    let d = convert(kind, &s, &v);
    let input = chars(len);
    let t = text(&input);
    same(run(&d, &t), longest(&[v], &input), "the text as a pattern matches exactly that text");
}

/// every combinator with a text for its operand
const COMB: [&str; 9] = ["exactly(s).append(t)", "exactly(s).or(t)", "exactly(s).repeat_forever(k)", "exactly(s).repeat(i..j)", "MatchRange(a, b).append(s)", "exactly(s).or(MatchRange(a, b)).append(t)", "exactly(s).append(t).or(u)", "exactly(s).or(t).or(u)", "exactly(s).repeat(0..2).append(t)"];
fn combinator(kind: u32, n: usize, m: usize, len: usize) {
    let (v, u) = (chars(n), chars(m));
    let (s, t) = (text(&v), text(&u));
    let (s, t) = (s.as_str(), t.as_str());
    let mut words: Vec<Vec<char>> = vec![];
    let p: Pattern<char> = match kind {
        0 => { words.push(cat(&v, &u)); exactly(s).append(t) }
        1 => { words.push(v.clone()); words.push(u.clone()); exactly(s).or(t) }
        2 => { let k = choose(3); let mut w = vec![]; for _ in 0..k { w = cat(&w, &v); } words.push(w.clone()); while w.len() <= len && n > 0 { w = cat(&w, &v); words.push(w.clone()); } exactly(s).repeat_forever(k as u32) }
        3 => { let i = choose(3); let j = i + 1 + choose(2); for k in i..j { let mut w = vec![]; for _ in 0..k { w = cat(&w, &v); } words.push(w); } exactly(s).repeat(i as u32..j as u32) }
        4 | 5 => {
            let (a, b) = (any_char(), any_char());
            assume(a <= b);
            let input = chars(len);
            let within = |c: char| (a <= c) & (c <= b);
            if kind == 4 {
                let p = MatchRange(a, b).append(s);
                let want = if len > n && within(input[0]) && longest(&[v.clone()], &input[1..]).is_some() { Some(n + 1) } else { None };
                return same(matches_prepared(&input, &p.prepare_to_match()), want, "the combined pattern matches exactly the right texts");
            }
            let p = exactly(s).or(MatchRange(a, b)).append(t);
            let x = longest(&[cat(&v, &u)], &input);
            let y = if len > m && within(input[0]) && longest(&[u.clone()], &input[1..]).is_some() { Some(m + 1) } else { None };
            return same(matches_prepared(&input, &p.prepare_to_match()), x.max(y), "the combined pattern matches exactly the right texts");
        }
        6 => { let w = chars(1); let x = text(&w); words.push(cat(&v, &u)); words.push(w); exactly(s).append(t).or(x.as_str()) }
        7 => { let w = chars(1); let x = text(&w); words.push(v.clone()); words.push(u.clone()); words.push(w); exactly(s).or(t).or(x.as_str()) }
        _ => { words.push(u.clone()); words.push(cat(&v, &u)); exactly(s).repeat(0..2).append(t) }
    };
    let input = chars(len);
    same(matches_prepared(&input, &p.prepare_to_match()), longest(&words, &input), "the combined pattern matches exactly the right texts");
}
pub fn c18(k: u32) {
    let (kind, n, m, len) = (k / 1000, (k / 100 % 10) as usize, (k / 10 % 10) as usize, (k % 10) as usize);
    if kind < 20 { conversion(kind, n, len) } else { combinator(kind - 20, n, m, len) }
}

/// the same text or pattern and the same input through every entry point
fn ways(kind: u32, n: usize, len: usize) {
    let v = chars(n);
    let s = text(&v);
    let s = s.as_str();
    let input = chars(len);
    let t = text(&input);
    let want = longest(&[v.clone()], &input);
    let got = match kind {
        0 => matches(t.as_str(), s),
        1 => matches(t.as_str(), exactly(s)),
        2 => matches_prepared(t.as_str(), &s.prepare_to_match()),
        3 => { let d = s.prepare_to_match(); match match_pattern(d.start(), &mut t.as_str().read_symbols()) { Accept(n, _) => Some(n), _ => None } }
        4 => matches(&input, s),
        5 => matches(&input, exactly(&v)),
        6 => { let o: &dyn ToPattern<char> = &v; matches(t.as_str(), o) }
        7 => matches(t.as_str(), s.to_ndfa(())),
        8 => { let d = s.prepare_to_match(); matches(t.as_str(), d) }
        9 => { let d = s.prepare_to_match(); let b: Box<dyn StateMachine<SymbolRange<char>, ()>> = Box::new(d); matches(t.as_str(), b) }
        10 => {
            let mut m = TokenMatcher::new();
            m.add_pattern(s.to_pattern(), ());
            matches(t.as_str(), &m)
        }
        _ => {
            // one matcher, used on every part of the input first
            let d = s.prepare_to_match();
            let c = d.clone();
            for i in 0..len { let part = text(&input[i..]); let r = matches_prepared(part.as_str(), &d); check(r == longest(&[v.clone()], &input[i..]), "every use of a matcher gives the same answer"); }
            check(matches_prepared(t.as_str(), &c) == want, "a clone gives the same answer");
            matches_prepared(t.as_str(), &d)
        }
    };
    same(got, want, "every way of matching a text gives the same answer");
}
const WAYS: [&str; 12] = ["matches(text, text)", "matches(text, pattern)", "matches_prepared(text, matcher)", "match_pattern(start, reader)", "matches(vector, text)", "matches(vector, pattern)", "matches(text, &ToPattern)", "matches(text, machine)", "matches(text, matcher)", "matches(text, boxed matcher)", "matches(text, token set)", "one matcher many times"];
pub fn c19(k: u32) { ways(k / 100, (k / 10 % 10) as usize, (k % 10) as usize) }

pub fn list(prop: &str, tier: &str, out: &mut Vec<(u32, String)>) {
    let th = tier == "thorough";
    if prop == "C18" {
        for (k, t) in CONV.iter().enumerate() { for n in 0..=(if th { 3 } else { 2 }) { let len = n + 1; out.push((1800000 + k as u32 * 1000 + n * 100 + len, format!("{} of {} characters on a text of {}{}", t, n, len, if k == 0 && n == 2 { " [twin]" } else { "" }))); } }
        for (k, t) in COMB.iter().enumerate() {
            for (n, m, len) in [(1, 1, 2), (2, 1, 3), (1, 2, 3), (0, 1, 2), (1, 0, 2), (2, 2, 4)] {
                if (k == 2 || k == 3) && m > 0 || (n + m > 2 && !th && (k > 0 || (n, m) != (2, 1))) { continue; }
                out.push((1800000 + (k as u32 + 20) * 1000 + n * 100 + m * 10 + len, format!("{} with texts of {} and {} characters on a text of {}", t, n, m, len)));
            }
            if k == 2 || k == 3 { for (n, len) in [(1, 3), (2, if th { 4 } else { 3 })] { out.push((1800000 + (k as u32 + 20) * 1000 + n * 100 + len, format!("{} with a text of {} characters on a text of {}", t, n, len))); } }
        }
    }
    if prop == "C19" { for (k, t) in WAYS.iter().enumerate() { for n in 0..=(if th { 3 } else { 2 }) { let len = n + 1; out.push((1900000 + k as u32 * 100 + n * 10 + len, format!("{}: {} characters on a text of {}{}", t, n, len, if k == 0 && n == 2 { " [twin]" } else { "" }))); } } }
}
