//! C07 (ranges) and C08 (neighbours) for every symbol type, at full width
use concordance::*;
use crate::sx::*;

pub trait Sy: Copy + Ord + Eq + std::fmt::Debug { fn any() -> Self; const LO: Self; const HI: Self; fn raw(self) -> u64; }
macro_rules! ints { ($($t:ident $b:expr),*) => { $(impl Sy for $t { fn any() -> $t { sx_any($b) as $t } const LO: $t = $t::MIN; const HI: $t = $t::MAX; fn raw(self) -> u64 { self as u64 } })* } }
ints!(u8 8, u16 16, u32 32, u64 64, usize 64, i8 8, i16 16, i32 32, i64 64, isize 64);
impl Sy for char {
    fn any() -> char { let v = sx_any(21) as u32; assume(v < 0x110000 && (v < 0xd800 || v > 0xdfff)); unsafe { char::from_u32_unchecked(v) } }
    const LO: char = '\0'; const HI: char = '\u{10ffff}';
    fn raw(self) -> u64 { self as u64 }
}

fn next_prev<T: Sy + Countable>() {
    let x = T::any();
    let y = T::any();
    if choose(2) == 0 {
        assume(x != T::HI);
        let n = Countable::next(&x);
        note(n.raw());
        check(n > x, "next is greater");
        let gap = (x < y) & (y < n);
        check(if twin() { !(x < y) | (y <= n) } else { !gap }, "nothing lies between a symbol and the next");
        check(Countable::prev(&n) == x, "prev undoes next");
    } else {
        assume(x != T::LO);
        let p = Countable::prev(&x);
        note(p.raw());
        check(p < x, "prev is smaller");
        check(!((p < y) & (y < x)), "nothing lies between a symbol and the previous");
        check(Countable::next(&p) == x, "next undoes prev");
    }
}

fn ranges<T: Sy>(part: u32) {
    let (a, b, y) = (T::any(), T::any(), T::any());
    match part {
        0 => {
            // creating
            let mut got = None;
            let p = panics(|| { got = Some(SymbolRange::new(a, b)); });
            note(p as u64);
            check(p == (a > b), "a range is refused exactly when its ends are reversed");
            if let Some(r) = got { check((r.lowest == a) & (r.highest == b), "a new range has the ends it was given"); }
        }
        1 => {
            assume(a <= b);
            let r = SymbolRange::new(a, b);
            let i = r.includes(&y);
            note(i as u64);
            check(i == (if twin() { (a <= y) & (y < b) } else { (a <= y) & (y <= b) }), "a range includes exactly the symbols between its ends");
        }
        2 => {
            assume(a <= b);
            let (c, d) = (T::any(), T::any());
            assume(c <= d);
            let (r, s) = (SymbolRange::new(a, b), SymbolRange::new(c, d));
            let lo = if a > c { a } else { c };
            let hi = if b < d { b } else { d };
            let o = r.overlaps(&s);
            note(o as u64);
            check(o == (lo <= hi), "ranges overlap exactly when some symbol is in both");
            check(s.overlaps(&r) == o, "overlap is symmetric");
            check(o | !((a <= y) & (y <= b) & (c <= y) & (y <= d)), "a symbol in both ranges means they overlap");
            check(!o | (r.includes(&lo) & s.includes(&lo)), "overlapping ranges share a symbol");
        }
        3 => {
            assume(a <= b);
            let (c, d) = (T::any(), T::any());
            assume(c <= d);
            let (r, s) = (SymbolRange::new(a, b), SymbolRange::new(c, d));
            let j = r.join(&s);
            note(j.lowest.raw()); note(j.highest.raw());
            check((j.lowest == a) | (j.lowest == c), "a joined range starts at one of the starts");
            check((j.highest == b) | (j.highest == d), "a joined range ends at one of the ends");
            check((j.lowest <= a) & (j.lowest <= c) & (j.highest >= b) & (j.highest >= d), "a joined range contains both");
        }
        _ => {
            use std::cmp::Ordering::*;
            let (c, d) = (T::any(), T::any());
            assume(a <= b);
            assume(c <= d);
            let (r, s) = (SymbolRange::new(a, b), SymbolRange::new(c, d));
            let want = if a < c { Less } else if a > c { Greater } else if b < d { Less } else if b > d { Greater } else { Equal };
            let got = r.cmp(&s);
            note(got as i8 as u8 as u64);
            check(got == want, "ranges order by lowest end, then highest");
            check(r.partial_cmp(&s) == Some(want), "the partial order is the total order");
            check((r == s) == (want == Equal), "equality agrees with the order");
            check((r < s) == (want == Less), "less-than agrees with the order");
            check((r >= s) == (want != Less), "greater-or-equal agrees with the order");
            check(r.clone() == r, "a clone is equal");
        }
    }
}

const TYPES: [&str; 11] = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "char"];
const PARTS: [&str; 5] = ["creating", "includes [twin]", "overlaps", "join", "ordering"];

pub fn list(prop: &str, out: &mut Vec<(u32, String)>) {
    if prop == "C08" { for (i, t) in TYPES.iter().enumerate() { out.push((800000 + i as u32, format!("neighbours of {}{}", t, if i == 0 { " [twin]" } else { "" }))); } }
    if prop == "C07" { for (i, t) in TYPES.iter().enumerate() { for (j, p) in PARTS.iter().enumerate() { out.push((700000 + (i * 10 + j) as u32, format!("{} of {} ranges", p, t))); } } }
}
pub fn c08(k: u32) {
    match k { 0 => next_prev::<u8>(), 1 => next_prev::<u16>(), 2 => next_prev::<u32>(), 3 => next_prev::<u64>(), 4 => next_prev::<usize>(), 5 => next_prev::<i8>(), 6 => next_prev::<i16>(), 7 => next_prev::<i32>(), 8 => next_prev::<i64>(), 9 => next_prev::<isize>(), _ => next_prev::<char>() }
}
pub fn c07(k: u32) {
    let p = k % 10;
    match k / 10 { 0 => ranges::<u8>(p), 1 => ranges::<u16>(p), 2 => ranges::<u32>(p), 3 => ranges::<u64>(p), 4 => ranges::<usize>(p), 5 => ranges::<i8>(p), 6 => ranges::<i16>(p), 7 => ranges::<i32>(p), 8 => ranges::<i64>(p), 9 => ranges::<isize>(p), _ => ranges::<char>(p) }
}
