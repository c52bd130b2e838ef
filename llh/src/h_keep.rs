//! C23: how many symbols are kept
use concordance::*;
use crate::sx::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::rc::Rc;

/// a symbol that knows how many like it there are
struct K(u8, Rc<Cell<usize>>);
impl K { fn new(v: u8, live: &Rc<Cell<usize>>) -> K { live.set(live.get() + 1); K(v, live.clone()) } }
impl Clone for K { fn clone(&self) -> K { K::new(self.0, &self.1) } }
impl Drop for K { fn drop(&mut self) { self.1.set(self.1.get() - 1) } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.0.cmp(&o.0)) } }
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { self.0.cmp(&o.0) } }
impl Countable for K { fn next(&self) -> K { K::new(self.0 + 1, &self.1) } fn prev(&self) -> K { K::new(self.0 - 1, &self.1) } }

struct Src { vals: Vec<u8>, at: usize, live: Rc<Cell<usize>>, asked: Rc<Cell<usize>> }
impl SymbolReader<K> for Src {
    fn next_symbol(&mut self) -> Option<K> { self.asked.set(self.asked.get() + 1); let r = self.vals.get(self.at).map(|v| K::new(*v, &self.live)); self.at += 1; r }
}
fn source(vals: Vec<u8>) -> (Src, Rc<Cell<usize>>, Rc<Cell<usize>>) {
    let (live, asked) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    (Src { vals, at: 0, live: live.clone(), asked: asked.clone() }, live, asked)
}
/// at most twice the largest number of symbols that ever had to be kept, and a few
fn within(live: &Rc<Cell<usize>>, need: usize) {
    note(live.get() as u64);
    let most = if twin() { need.saturating_sub(1) } else { 2 * need + 8 };
    check(live.get() <= most, "symbols that cannot be read again are let go");
}

struct Two<'a> { r: [Option<SplitSymbolReader<'a, K>>; 2], count: [usize; 2], need: usize }
impl<'a> Two<'a> {
    fn read(&mut self, who: usize) { if let Some(r) = self.r[who].as_mut() { r.next_symbol(); self.count[who] += 1; self.now(); } }
    fn drop(&mut self, who: usize) { self.r[who] = None; }
    fn now(&mut self) { if self.r[0].is_some() && self.r[1].is_some() { let (a, b) = (self.count[0], self.count[1]); self.need = self.need.max(if a > b { a - b } else { b - a }); } }
}
/// bursts of reads, and drops
fn bursts(ops: usize, len: usize) {
    let (mut src, live, _) = source((0..len).map(|i| i as u8).collect());
    {
        let (a, b) = src.split();
        let mut t = Two { r: [Some(a), Some(b)], count: [0, 0], need: 0 };
        for _ in 0..ops {
            let k = choose(8);
            let (who, what) = (k % 2, k / 2);
            if t.r[who].is_none() { assume(false); }
            if what == 3 { t.drop(who); } else { for _ in 0..[1, 5, 20][what] { t.read(who); } }
            within(&live, t.need);
        }
        // whoever is left reads on to the end, in step
        for _ in 0..len { t.read(0); t.read(1); }
        within(&live, t.need);
        for k in 0..2 { if let Some(r) = t.r[k].as_mut() { while let Some(_) = r.next_symbol() { } } }
        within(&live, t.need);
    }
    check(live.get() == 0, "everything is let go in the end");
}
/// one reader a few symbols ahead of the other, for a long time; then one of them is dropped
fn in_step(rounds: usize) {
    let (lag, stop, gone) = (choose(4), choose(3), choose(3));
    let lead = choose(2);
    let (mut src, live, _) = source((0..4 * rounds).map(|i| i as u8).collect());
    {
        let (a, b) = src.split();
        let mut t = Two { r: [Some(a), Some(b)], count: [0, 0], need: 0 };
        for _ in 0..[0, 1, 3, 9][lag] { t.read(lead); }
        for k in 0..rounds {
            if k == [0, rounds / 2, rounds][stop] && gone < 2 { t.drop(gone); }
            if k % 2 == 0 { t.read(0); t.read(1); } else { t.read(1); t.read(0); }
            within(&live, t.need);
        }
        // the one behind catches up, and they go on
        let (a, b) = (t.count[lead], t.count[1 - lead]);
        if a > b { for _ in b..a { t.read(1 - lead); } }
        within(&live, t.need);
        for _ in 0..rounds { t.read(0); t.read(1); within(&live, t.need); }
        if choose(2) == 1 { t.drop(0); } else { t.drop(1); }
        within(&live, t.need);
    }
    check(live.get() == 0, "everything is let go in the end");
}
/// a tape that is read, taken back and cut, over and over
fn tape(rounds: usize, big: bool) {
    let step = if big { 5 } else { 1 };
    let (a, b, c, cuts) = (choose(5) * step, choose(5) * step, choose(4) * step, 1 + choose(3));
    let (src, live, _) = source((0..rounds * 8 * step).map(|i| i as u8).collect());
    let (mut pos, mut cut, mut high, mut need) = (0, 0, 0usize, 0usize);
    {
        let mut t = Tape::new(src);
        for k in 0..rounds {
            for _ in 0..a { if t.next_symbol().is_some() { pos += 1; } high = high.max(pos); }
            need = need.max(high - cut);
            if b <= pos - cut { t.rewind(b); pos -= b; }
            for _ in 0..c { if t.next_symbol().is_some() { pos += 1; } high = high.max(pos); }
            need = need.max(high - cut);
            if k % cuts == 0 { t.cut(); cut = pos; }
            within(&live, need);
        }
        check(t.buffer_size() == high - cut, "the tape holds the symbols since the cut");
    }
    check(live.get() == 0, "everything is let go in the end");
}
/// tokens of one or a few symbols found in a long source
fn tokens(set: usize, len: usize) {
    let pat = Rc::new(Cell::new(0));
    let k = |s: &[u8]| Pattern::Match(s.iter().map(|v| K::new(*v, &pat)).collect());
    let mut m: TokenMatcher<K, u32> = TokenMatcher::new();
    match set {
        0 => { m.add_pattern(k(b"b"), 1); }
        1 => { m.add_pattern(k(b"b"), 1); m.add_pattern(k(b"bcd"), 2); }
        2 => { m.add_pattern(k(b"b").repeat_forever(1), 1); m.add_pattern(k(b"c"), 2); }
        _ => { m.add_pattern(k(b"bcbcb"), 1); m.add_pattern(k(b"c"), 2); }
    }
    // the same few symbols again and again, whatever they are
    let part: Vec<u8> = (0..3).map(|_| { let v = byte(); assume(v >= b'a' && v <= b'd'); pin(v as usize) as u8 }).collect();
    let dfa: SymbolRangeDfa<K, u32> = m.prepare_to_match();
    let (src, live, asked) = source((0..len).map(|i| part[i % 3]).collect());
    {
        let by_hand = choose(2) == 1;
        let mut tk = Tokenizer::new_prepared(src, &dfa);
        let mut need = 1;
        for _ in 0..len {
            let pos = tk.get_source_position();
            let found = if by_hand { let f = tk.next_token().is_some(); if !f { tk.skip_input(); } f } else { Iterator::next(&mut tk).is_some() };
            // the iterator may skip: what it had to keep is what lay between the place where it began looking and what it read
            if asked.get() > pos && by_hand { need = need.max(asked.get() - pos); }
            within(&live, if by_hand { need } else { [2, 4, len, 6][set] });
            if !found && !by_hand { break; }
        }
    }
    check(live.get() == 0, "everything is let go in the end");
}

pub fn list(tier: &str, out: &mut Vec<(u32, String)>) {
    let t = tier == "thorough";
    for (ops, len) in if t { vec![(3, 60), (4, 60), (5, 90)] } else { vec![(3, 45), (4, 45)] } { out.push((2300000 + ops * 1000 + len, format!("{} bursts of 1, 5 or 20 reads of two readers, or drops, source of {}", ops, len))); }
    for n in if t { vec![20, 40, 80, 150, 400] } else { vec![20, 40, 150] } { out.push((2310000 + n, format!("two readers in step for {} rounds, one 0 to 9 symbols ahead; either is dropped{}", n, if n == 20 { " [twin]" } else { "" }))); }
    for n in if t { vec![12, 30, 60, 150] } else { vec![12, 30, 100] } { for big in 0..2 { out.push((2320000 + n * 10 + big, format!("{} rounds of reading a tape, going back, reading and cutting{}", n, if big == 1 { ", in steps of 5" } else { "" }))); } }
    for set in 0..4 { for len in if t { vec![30, 60] } else { vec![30] } { out.push((2330000 + set * 1000 + len, format!("token set {} found in a source of {}", set, len))); } }
}
pub fn run(k: u32) {
    let n = (k % 1000) as usize;
    match k / 10000 { 0 => bursts((k / 1000) as usize, n), 1 => in_step(n), 2 => tape((k % 10000 / 10) as usize, k % 10 == 1), _ => tokens((k % 10000 / 1000) as usize, n) }
}
