//! C12: two split readers under every interleaving of reads and drops
use concordance::*;
use crate::sx::*;
use std::cell::Cell;
use std::rc::Rc;

/// produces exactly `out`, then nothing for ever; remembers how often it was asked
struct Script { out: Vec<Option<u8>>, asked: Rc<Cell<usize>> }
impl SymbolReader<u8> for Script { fn next_symbol(&mut self) -> Option<u8> { let k = self.asked.get(); self.asked.set(k + 1); self.out.get(k).copied().unwrap_or(None) } }

fn interleave(ops: usize, len: usize) {
    let out: Vec<Option<u8>> = (0..len).map(|_| { let b = byte(); if choose(2) == 0 { Some(b) } else { None } }).collect();
    let seen = Rc::new(Cell::new(0usize));
    let mut src = Script { out: out.clone(), asked: seen.clone() };
    let mut count = [0usize; 2];
    {
        let (a, b) = src.split();
        let mut r = [Some(a), Some(b)];
        for _ in 0..ops {
            let k = choose(4);
            let (who, drop_it) = (k % 2, k / 2 == 1);
            if r[who].is_none() { assume(false); }
            if drop_it { r[who] = None; if r[0].is_none() && r[1].is_none() { break; } continue; }
            let got = r[who].as_mut().unwrap().next_symbol();
            let want = out.get(count[who]).copied().unwrap_or(None);
            let want = if twin() && count[0] == 2 && count[1] == 1 { None } else { want };
            count[who] += 1;
            note(got.is_some() as u64);
            check(got.is_some() == want.is_some(), "a split reader ends exactly where the source does");
            if let (Some(g), Some(w)) = (got, want) { note(g as u64); check(g == w, "a split reader returns what the source produced at that position"); }
            let need = if count[0] > count[1] { count[0] } else { count[1] };
            check(seen.get() == need, "the source is asked once for each position");
        }
        // the rest, and then both are dropped in either order
        if choose(2) == 0 { r[0] = None; r[1] = None; } else { r[1] = None; r[0] = None; }
    }
    note(seen.get() as u64);
    check(seen.get() == if count[0] > count[1] { count[0] } else { count[1] }, "dropping reads nothing");
}

/// a split of a split, and collecting what is left
fn nested(len: usize) {
    let v: Vec<u8> = (0..len).map(|_| byte()).collect();
    let mut src = v.read_symbols();
    let (mut a, mut b) = src.split();
    let (i, j) = (choose(len + 2), choose(len + 2));
    for k in 0..i { let g = a.next_symbol(); check(g == v.get(k).copied(), "first reader"); }
    {
        let (mut c, mut d) = b.split();
        for k in 0..j { let g = c.next_symbol(); check(g == v.get(k).copied(), "first reader of the second split"); }
        let rest = d.to_vec();
        check(rest == v, "second reader of the second split sees everything");
        let rest = c.to_vec();
        check(rest[..] == v[j.min(len)..], "collecting a split reader gives what it has not read");
    }
    let rest = a.to_vec();
    check(rest[..] == v[i.min(len)..], "collecting a split reader gives what it has not read");
    check(a.next_symbol().is_none(), "it stays at the end");
}

/// bursts of reads, so that one reader may be far ahead of the other
fn bursts(ops: usize, len: usize) {
    let v: Vec<u8> = (0..len).map(|_| byte()).collect();
    let seen = Rc::new(Cell::new(0usize));
    let mut src = Script { out: v.iter().map(|x| Some(*x)).collect(), asked: seen.clone() };
    let (a, b) = src.split();
    let mut r = [Some(a), Some(b)];
    let mut count = [0usize; 2];
    for _ in 0..ops {
        let k = choose(10);
        let (who, what) = (k % 2, k / 2);
        if r[who].is_none() { assume(false); }
        if what == 4 { r[who] = None; if r[0].is_none() && r[1].is_none() { break; } continue; }
        for _ in 0..[1, 5, 17, 40][what] {
            let got = r[who].as_mut().unwrap().next_symbol();
            check(got == v.get(count[who]).copied(), "a split reader returns what the source produced at that position");
            count[who] += 1;
        }
        note(count[who] as u64);
        check(seen.get() == count[0].max(count[1]), "the source is asked once for each position");
    }
    for who in 0..2 {
        if let Some(rd) = r[who].as_mut() {
            let rest = rd.to_vec();
            note(rest.len() as u64);
            check(rest[..] == v[count[who].min(len)..], "collecting a split reader gives what it has not read");
        }
    }
}
/// four readers of one source: both halves are split again; read in any order of who comes first
fn tree(len: usize) {
    let v: Vec<u8> = (0..len).map(|_| byte()).collect();
    let mut src = v.read_symbols();
    let (mut a, mut b) = src.split();
    {
        let (c, d) = a.split();
        let (e, f) = b.split();
        let mut r = [Some(c), Some(d), Some(e), Some(f)];
        let mut count = [0usize; 4];
        let at = choose(len + 2);
        let first = choose(4);
        for _ in 0..at { let g = r[first].as_mut().unwrap().next_symbol(); check(g == v.get(count[first]).copied(), "four readers: the first"); count[first] += 1; }
        let gone = choose(5);
        if gone < 4 { r[gone] = None; }
        let second = choose(4);
        if r[second].is_some() { let rest = r[second].as_mut().unwrap().to_vec(); check(rest[..] == v[count[second].min(len)..], "four readers: the second"); count[second] = len; }
        for k in 0..4 { if let Some(x) = r[k].as_mut() { let rest = x.to_vec(); note(rest.len() as u64); check(rest[..] == v[count[k].min(len)..], "four readers: the rest"); } }
    }
}
/// the source is a tape, a string, a mapped or a boxed reader: what was read before the split is not seen again, and the source goes on afterwards
fn of_others(kind: usize, len: usize) {
    fn go<R: SymbolReader<u8>>(mut src: R, v: &[u8]) {
        let n = v.len();
        let p = choose(n + 1);
        for k in 0..p { let g = src.next_symbol(); check(g == Some(v[k]), "before the split"); }
        let (i, j);
        {
            let (mut a, mut b) = src.split();
            i = choose(n + 2 - p); j = choose(n + 2 - p);
            for k in 0..i { let g = a.next_symbol(); check(g == v.get(p + k).copied(), "the first reader begins where the source stands"); }
            for k in 0..j { let g = b.next_symbol(); check(g == v.get(p + k).copied(), "the second reader begins where the source stands"); }
        }
        let at = (p + i.max(j)).min(n);
        let rest = src.to_vec();
        note(rest.len() as u64);
        check(rest[..] == v[at..], "the source goes on after what was read from it");
    }
    let v: Vec<u8> = (0..len).map(|_| byte()).collect();
    match kind {
        0 => go(v.read_symbols(), &v),
        1 => go(Tape::new(v.read_symbols()), &v),
        2 => { let w: Vec<u8> = v.iter().map(|x| !x).collect(); go(w.read_symbols().map_symbols(|x: u8| !x), &v) }
        3 => { let b: Box<dyn SymbolReader<u8>> = Box::new(VecReader::from_vec(v.clone())); go(b, &v) }
        _ => go(ByteSymbolReader::from(&v[..]), &v),
    }
}

/// one reader runs far ahead, or stays so for a long time; only the last symbols are free
fn far(n: usize) {
    let mut v: Vec<u8> = (0..2 * n).map(|i| (i * 7 % 251) as u8).collect();
    for i in 0..4 { v[2 * n - 1 - i] = byte(); v[n - 2 + i] = byte(); }
    let mut src = v.read_symbols();
    let (a, b) = src.split();
    let mut r = [Some(a), Some(b)];
    let mut count = [0usize; 2];
    let lead = choose(2);
    let read = |r: &mut [Option<SplitSymbolReader<u8>>; 2], count: &mut [usize; 2], who: usize, times: usize| for _ in 0..times {
        if let Some(rd) = r[who].as_mut() { let got = rd.next_symbol(); check(got == v.get(count[who]).copied(), "a split reader returns what the source produced at that position"); count[who] += 1; }
    };
    read(&mut r, &mut count, lead, [n / 2, n][choose(2)]);
    match choose(4) {
        0 => read(&mut r, &mut count, 1 - lead, n),
        1 => { read(&mut r, &mut count, 1 - lead, 1); for _ in 0..n / 2 { read(&mut r, &mut count, lead, 1); read(&mut r, &mut count, 1 - lead, 1); } }
        2 => { read(&mut r, &mut count, 1 - lead, n / 3); r[lead] = None; }
        _ => { read(&mut r, &mut count, 1 - lead, n / 3); r[1 - lead] = None; }
    }
    for who in 0..2 { if let Some(rd) = r[who].as_mut() { let rest = rd.to_vec(); note(rest.len() as u64); check(rest[..] == v[count[who].min(2 * n)..], "collecting a split reader gives what it has not read"); } }
}

pub fn list(tier: &str, out: &mut Vec<(u32, String)>) {
    let t = tier == "thorough";
    for (ops, lens) in if t { vec![(8, 0..5), (10, 1..3)] } else { vec![(6, 0..5), (8, 2..3)] } { for l in lens { out.push((1200000 + ops * 100 + l, format!("every {} reads and drops of two readers, the first {} results of the source being anything{}", ops, l, if ops < 10 && l == 3 { " [twin]" } else { "" }))); } }
    for l in 0..(if t { 7 } else { 5 }) { out.push((1290000 + l, format!("a split of a split, source of {}", l))); }
    for (ops, lens) in if t { vec![(4, vec![10, 45]), (5, vec![3, 20, 90])] } else { vec![(3, vec![10, 45]), (4, vec![20])] } { for l in lens { out.push((1260000 + ops * 100 + l, format!("every {} bursts of 1, 5, 17 or 40 reads, or drops, source of {}", ops, l))); } }
    for n in if t { vec![35, 70, 140, 300, 1100] } else { vec![70, 300] } { out.push((1295000 + n, format!("one reader far ahead of the other, source of {}", 2 * n))); }
    for l in if t { vec![0, 1, 2, 3, 4, 5, 20] } else { vec![1, 2, 3, 8] } { out.push((1270000 + l, format!("both halves split again, source of {}", l))); }
    for (k, n) in ["a vector", "a tape", "a mapped reader", "a boxed reader", "a byte reader"].iter().enumerate() { for l in if t { vec![0, 1, 2, 4, 6, 20] } else { vec![0, 2, 4, 10] } { out.push((1280000 + k as u32 * 100 + l, format!("{} of {} split part of the way and read on afterwards", n, l))); } }
}
pub fn run(k: u32) { if k >= 95000 { far((k - 95000) as usize) } else if k >= 90000 { nested((k - 90000) as usize) } else if k >= 80000 { of_others((k - 80000) as usize / 100, (k % 100) as usize) } else if k >= 70000 { tree((k - 70000) as usize) } else if k >= 60000 { bursts((k - 60000) as usize / 100, (k % 100) as usize) } else if k < 90000 { interleave((k / 100) as usize, (k % 100) as usize) } else { nested((k - 90000) as usize) } }
