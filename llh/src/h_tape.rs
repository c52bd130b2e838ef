//! C11: a tape against a list and three positions
use concordance::*;
use crate::sx::*;
use std::cell::RefCell;
use std::rc::Rc;

pub struct Log { pub asked: usize, pub after_end: bool }
/// hands out `vals` and then ends, counting how often it was asked
pub struct Src { pub vals: Vec<u8>, pub at: usize, pub log: Rc<RefCell<Log>> }
impl SymbolReader<u8> for Src {
    fn next_symbol(&mut self) -> Option<u8> {
        let mut l = self.log.borrow_mut();
        if self.at > self.vals.len() { l.after_end = true; }
        l.asked += 1;
        let r = self.vals.get(self.at).copied();
        self.at += 1;
        r
    }
}

struct T { t: Tape<u8, Src>, vals: Vec<u8>, log: Rc<RefCell<Log>>, pos: usize, cut: usize, high: usize, ended: bool }
impl T {
    fn new(len: usize) -> T {
        let vals: Vec<u8> = (0..len).map(|_| byte()).collect();
        let log = Rc::new(RefCell::new(Log { asked: 0, after_end: false }));
        let t = Tape::new(Src { vals: vals.clone(), at: 0, log: log.clone() });
        T { t, vals, log, pos: 0, cut: 0, high: 0, ended: false }
    }
    fn read(&mut self) {
        let got = self.t.next_symbol();
        let want = if self.pos < self.vals.len() { Some(self.vals[self.pos]) } else { None };
        if want.is_some() { self.pos += 1; if self.pos > self.high { self.high = self.pos; } } else { self.ended = true; }
        note(got.is_some() as u64);
        check(got.is_some() == want.is_some(), "the tape ends exactly where the source ends");
        if let (Some(g), Some(w)) = (got, want) { note(g as u64); check(g == w, "a symbol read is the one the source produced for that position"); }
    }
    fn same(&mut self) {
        check(self.t.get_source_position() == self.pos, "the position is the number of symbols from the start");
        check(self.t.at_end_of_reader() == (self.ended && self.pos == self.high), "the end is reported exactly when the source has ended and everything was read");
        check(self.t.buffer_size() == self.high - self.cut, "the tape holds the symbols since the cut");
        let l = self.log.borrow();
        check(!l.after_end, "the source is not read after it ended");
        check(l.asked == self.high + self.ended as usize, "the source is read one symbol at a time and only when needed");
    }
    /// false if the rewind was refused
    fn rewind(&mut self, n: usize) -> bool {
        let avail = self.pos - self.cut;
        let t = &mut self.t;
        let p = panics(|| t.rewind(n));
        note(p as u64);
        let refuse = if twin() { n >= avail } else { n > avail };
        check(p == refuse, "a rewind is refused exactly when it goes beyond the last cut");
        if p { return false; }
        self.pos -= pin(n);
        true
    }
    fn op(&mut self, reads: &[usize]) -> bool {
        let k = choose(reads.len() + 3);
        if k < reads.len() { for _ in 0..reads[k] { self.read(); } }
        else if k == reads.len() { if !self.rewind(word()) { return false; } }
        else if k == reads.len() + 1 { self.t.cut(); self.cut = self.pos; }
        else { self.t.resize(); }
        self.same();
        true
    }
    fn drain(&mut self) {
        // what is left, and everything since the cut once more
        while self.pos < self.vals.len() { self.read(); }
        self.read();
        self.same();
        let back = self.pos - self.cut;
        let t = &mut self.t;
        check(!panics(|| t.rewind(back)), "going back to the cut is allowed");
        self.pos = self.cut;
        self.same();
        while self.pos < self.vals.len() { self.read(); }
        self.read();
        self.same();
    }
}

/// any calls from the beginning
fn history(ops: usize, len: usize, reads: &[usize]) {
    let mut t = T::new(len);
    t.same();
    for _ in 0..ops { if !t.op(reads) { return; } }
    t.drain();
}
/// any position of the three indices in a buffer of 4 << doubled entries, then any calls
fn position(doubled: usize, ops: usize, len: usize) {
    let cap = 4 << doubled;
    let mut t = T::new(len);
    for _ in 0..doubled { t.t.resize(); }
    let a = choose(cap);
    // move the start of the buffer without letting it grow
    for _ in 0..a { t.read(); t.t.cut(); t.cut = t.pos; }
    let b = choose(cap);
    for _ in 0..b { t.read(); }
    let c = choose(b + 1);
    if !t.rewind(c) { return; }
    t.same();
    for _ in 0..ops { if !t.op(&[1, 2]) { return; } }
    t.drain();
}

/// the same few calls over and over: read `a`, go back `b`, read `c`, and cut each time, every other time or never
fn rounds(n: usize, big: bool) {
    let step = if big { 5 } else { 1 };
    let (a, b, c, cuts) = (choose(5) * step, choose(5) * step, choose(4) * step, choose(3));
    let mut t = T::new(n * 8 * step);
    for k in 0..n {
        for _ in 0..a { t.read(); }
        if b > 0 && !t.rewind(b) { return; }
        for _ in 0..c { t.read(); }
        if cuts == 0 || (cuts == 1 && k % 2 == 1) { t.t.cut(); t.cut = t.pos; }
        t.same();
    }
    t.drain();
}
/// far into a long source, with a cut somewhere on the way, and back by any distance
fn far(len: usize) {
    let mut t = T::new(len);
    let (x, y) = (choose(4), choose(5));
    let first = [0, 1, 33, len / 2][x];
    for _ in 0..first { t.read(); }
    t.t.cut(); t.cut = t.pos;
    for _ in 0..[1, 31, len / 2 - 1, len / 2, len][y] { t.read(); }
    t.same();
    if !t.rewind(word()) { return; }
    t.same();
    t.drain();
}

pub fn list(tier: &str, out: &mut Vec<(u32, String)>) {
    let thorough = tier == "thorough";
    for (ops, lens) in if thorough { vec![(5, 0..10), (6, 5..9)] } else { vec![(4, 0..9), (5, 6..7)] } { for l in lens { out.push((1100000 + ops * 100 + l, format!("every {} calls of read 1, 3 or 5 / rewind / cut / resize on a source of {}{}", ops, l, if ops == 4 && l == 4 { " [twin]" } else { "" }))); } }
    for (d, ops, len) in if thorough { vec![(0, 3, 9), (0, 3, 12), (1, 2, 12), (1, 2, 17), (1, 2, 22), (2, 1, 20), (2, 1, 40), (0, 1, 30)] } else { vec![(0, 2, 6), (0, 2, 9), (0, 2, 12), (1, 1, 12), (1, 1, 17), (0, 1, 24)] } {
        out.push((1110000 + d * 3000 + ops * 100 + len, format!("every index position of a buffer of {}, then every {} calls, source of {}", 4 << d, ops, len)));
    }
    for (ops, lens) in if thorough { vec![(3, vec![20, 40, 70]), (4, vec![20, 40])] } else { vec![(3, vec![20, 40])] } { for l in lens { out.push((1150000 + ops * 100 + l, format!("every {} calls of read 2, 9 or 17 / rewind / cut / resize on a source of {}", ops, l))); } }
    for n in if thorough { vec![5, 9, 17, 40] } else { vec![5, 12] } { for big in 0..2 { out.push((1160000 + n * 10 + big, format!("{} rounds of reading, going back, reading and cutting{}", n, if big == 1 { ", in steps of 5" } else { "" }))); } }
    for l in if thorough { vec![40, 140, 300, 1100] } else { vec![40, 140, 300] } { out.push((1170000 + l, format!("any way back after reading far into a source of {}", l))); }
}
pub fn run(k: u32) {
    if k >= 70000 { return far((k - 70000) as usize); }
    if k >= 60000 { return rounds((k - 60000) as usize / 10, k % 10 == 1); }
    if k >= 50000 { let k = k - 50000; return history((k / 100) as usize, (k % 100) as usize, &[2, 9, 17]); }
    if k < 10000 { history((k / 100) as usize, (k % 100) as usize, &[1, 3, 5]) }
    else { let k = k - 10000; position((k / 3000) as usize, (k % 3000 / 100) as usize, (k % 100) as usize) }
}
