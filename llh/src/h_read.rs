//! C17: every reader delivers its source
use concordance::*;
use crate::sx::*;
use std::io::{BufReader, Read, Error, ErrorKind};

/// reads `r` symbols one at a time, then the rest by to_vec, then once more
fn deliver<T: Clone + PartialEq, R: SymbolReader<T>>(mut rd: R, want: &[T], eq: fn(&T, &T) -> bool) {
    let r = choose(want.len() + 2);
    for k in 0..r {
        let g = rd.next_symbol();
        note(g.is_some() as u64);
        check(g.is_some() == (k < want.len()), "a reader ends exactly where its source ends");
        if let Some(g) = g { check(eq(&g, &want[k]), "a reader returns the symbols of its source in order"); }
    }
    if r <= want.len() {
        let rest = rd.to_vec();
        note(rest.len() as u64);
        let n = if twin() && r == 1 { want.len() } else { want.len() - r };
        check(rest.len() == n, "collecting gives exactly the symbols not yet read");
        let mut ok = true;
        for i in 0..rest.len().min(want.len() - r) { ok &= eq(&rest[i], &want[r + i]); }
        check(ok, "collecting gives the unread symbols in order");
    }
}
fn eqb(a: &u8, b: &u8) -> bool { note(*a as u64); a == b }
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| byte()).collect() }

#[derive(Clone, Copy, PartialEq)]
enum Ev { Byte(u8), Fail, Again }
struct Stream { ev: Vec<Ev>, at: usize }
impl Read for Stream {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let e = self.ev.get(self.at).copied();
        self.at += 1;
        match e { None => Ok(0), Some(Ev::Byte(x)) => { b[0] = x; Ok(1) } Some(Ev::Fail) => Err(Error::from(ErrorKind::Other)), Some(Ev::Again) => Err(Error::from(ErrorKind::Interrupted)) }
    }
}
fn any_char() -> char { <char as crate::h_leaf::Sy>::any() }

/// what a byte stream does at each read: a byte, an error, or an interruption (which std retries); and the bytes before the first error
fn events(n: usize) -> (Vec<Ev>, Vec<u8>) {
    let odd = if n > 9 { choose(n + 1) } else { 0 };
    let ev: Vec<Ev> = (0..n).map(|i| { let b = byte(); match if n > 9 && i != odd { 0 } else { choose(3) } { 0 => Ev::Byte(b), 1 => Ev::Fail, _ => Ev::Again } }).collect();
    let mut want = vec![];
    for e in &ev { match e { Ev::Byte(b) => want.push(*b), Ev::Again => {} Ev::Fail => break } }
    (ev, want)
}
/// only up to the end is promised
fn stream<R: SymbolReader<u8>>(mut rd: R, want: &[u8]) {
    let r = if want.len() > 9 { [0, 1, want.len() / 2, want.len()][choose(4)] } else { choose(want.len() + 1) };
    for k in 0..r { let g = rd.next_symbol(); check(g.is_some(), "a byte reader does not end early"); if let Some(g) = g { check(eqb(&g, &want[k]), "a byte reader returns the bytes in order"); } }
    let rest = rd.to_vec();
    check(rest.len() == want.len() - r, "a byte reader ends at the first error or the end");
    for i in 0..rest.len().min(want.len() - r) { check(eqb(&rest[i], &want[r + i]), "a byte reader returns the bytes in order"); }
}

fn case(kind: u32, n: usize) {
    match kind {
        0 => { let v = bytes(n); deliver(v.read_symbols(), &v, eqb) }
        1 => { let v = bytes(n); deliver(VecReader::from_vec(v.clone()), &v, eqb) }
        2 => {
            // a long one: widths in turn, all but one character given
            let odd = if n > 9 { [0, n / 2, n - 1][choose(3)] } else { 0 };
            let cs: Vec<char> = (0..n).map(|i| if n > 9 && i != odd { ['a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\0'][i * 7 % 9] } else { any_char() }).collect();
            let s: String = cs.iter().collect();
            let mut want = vec![]; want.extend(cs.iter().cloned());
            deliver(s.as_str().read_symbols(), &want, |a, b| { note(*a as u64); a == b })
        }
        3 => { let (ev, want) = events(n); stream(ByteSymbolReader::from(Stream { ev, at: 0 }), &want) }
        13 => { let (ev, want) = events(n); let mut st = Stream { ev, at: 0 }; let rd: &mut dyn Read = &mut st; stream(ByteSymbolReader::from(rd), &want) }
        14 => { let (ev, want) = events(n); stream(ByteSymbolReader::new(BufReader::with_capacity(4, Stream { ev, at: 0 }).bytes()), &want) }
        4 => { let v = bytes(n); deliver(ByteSymbolReader::from(&v[..]), &v, eqb) }
        5 => { let v = bytes(n); deliver(ByteSymbolReader::new((&v[..]).bytes()), &v, eqb) }
        6 => {
            // a mapping with a memory: the k-th call gives x + k * 37
            let v = bytes(n);
            let want: Vec<u16> = v.iter().enumerate().map(|(i, x)| (*x as u16).wrapping_add(i as u16 * 37)).collect();
            let mut calls = 0u16;
            deliver(v.read_symbols().map_symbols(move |x: u8| { let r = (x as u16).wrapping_add(calls * 37); calls += 1; r }), &want, |a, b| { note(*a as u64); a == b })
        }
        7 => {
            let v = bytes(n);
            let odd = if n > 9 { choose(n) } else { 0 };
            let keep: Vec<bool> = (0..n).map(|i| if n > 9 { (i % 3 == 1) != (i == odd) } else { choose(2) == 1 }).collect();
            let want: Vec<u8> = (0..n).filter(|i| keep[*i]).map(|i| v[i] ^ 0x5a).collect();
            let pairs: Vec<(bool, u8)> = keep.iter().cloned().zip(v.iter().cloned()).collect();
            deliver(pairs.iter().filter_map(|p| if p.0 { Some(p.1 ^ 0x5a) } else { None }), &want, eqb)
        }
        8 => {
            // a tagged stream, with one region tagged
            let v = bytes(n);
            let mut s: TaggedStream<u8, u8> = TaggedStream::from_reader(&mut v.read_symbols());
            let mut want: Vec<TagSymbol<u8, u8>> = v.iter().map(|x| TagSymbol::Untagged(*x)).collect();
            if n > 0 {
                let a = choose(n + 1); let b = a + choose(n + 1 - a); let t = byte();
                let inner: Vec<TagSymbol<u8, u8>> = want.drain(a..b).collect();
                let mut sub: TaggedStream<u8, u8> = TaggedStream::from_reader(&mut VecReader::from_vec(vec![]));
                let _ = &mut sub;
                s.tag(t, a..b);
                match &s[a] { TagSymbol::Tagged(u, st) => { check(*u == t, "tag"); check(st.len() == inner.len(), "tag length"); } _ => check(false, "tag") }
                want.insert(a, s[a].clone());
            }
            deliver(s.read_symbols(), &want, |a, b| a == b)
        }
        9 => { let v = bytes(n); let b: Box<dyn SymbolReader<u8>> = Box::new(VecReader::from_vec(v.clone())); deliver(b, &v, eqb) }
        10 => { let v = bytes(n); let b: Box<dyn SymbolReader<u8> + '_> = Box::new(v.read_symbols().map_symbols(|x: u8| !x)); let want: Vec<u8> = v.iter().map(|x| !*x).collect(); let bb: Box<dyn SymbolReader<u8> + '_> = Box::new(b); deliver(bb, &want, eqb) }
        11 => { let v = bytes(n); deliver(Tape::new(v.read_symbols()), &v, eqb) }
        _ => { let v = bytes(n); let want: Vec<u8> = v.iter().map(|x| x ^ 1).collect(); deliver(VecReader::from_vec(v).map_symbols(|x: u8| x ^ 1).map_symbols(|x: u8| x), &want, eqb) }
    }
}
const KINDS: [&str; 15] = ["a vector", "a consumed vector [twin]", "a string of any characters", "a byte stream with errors", "a byte slice", "a Bytes iterator", "a mapped stream", "a filtering iterator", "a tagged stream", "a boxed reader", "a box of a box of a mapped stream", "a tape", "a mapped mapped stream", "a reading object with errors", "a buffered stream with errors"];
pub fn list(tier: &str, out: &mut Vec<(u32, String)>) {
    let t = tier == "thorough";
    for (i, k) in KINDS.iter().enumerate() {
        let max = match i { 2 => if t { 4 } else { 3 }, 3 | 13 | 14 => if t { 7 } else if i == 3 { 5 } else { 4 }, 7 => if t { 7 } else { 5 }, _ => if t { 12 } else { 7 } };
        for n in 0..=max { let k = if n == 3 { k.to_string() } else { k.replace(" [twin]", "") }; out.push((1700000 + i as u32 * 100 + n, format!("{} of {}", k, n))); }
        let large: &[usize] = match i { 2 => if t { &[6, 9, 20, 40] } else { &[20] }, 3 | 13 | 14 => if t { &[10, 20, 40] } else { &[12, 20] }, 7 => if t { &[12, 30] } else { &[12] }, 8 => if t { &[20] } else { &[12] }, _ => if t { &[17, 33, 65, 129, 260] } else { &[17, 33, 70, 260] } };
        for n in large { out.push((1700000 + i as u32 * 1000 + 10000 + *n as u32, format!("{} of {}", k.replace(" [twin]", ""), n))); }
    }
}
pub fn run(k: u32) { if k >= 10000 { return case((k - 10000) / 1000, (k % 1000) as usize); } case(k / 100, (k % 100) as usize) }
