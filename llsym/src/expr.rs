//! Bit-vector expressions: hash-consed, simplified while they are built, evaluated under a model, written out as SMT-LIB 2.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor, Eq, Ult, Ule, Slt, Sle, Ite, Zext, Sext, Extract, Concat }

/// `k` is the value of a constant, the number of a variable, or the low bit of an extract
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s } }

pub struct Arena { pub n: Vec<Node>, map: HashMap<Node, E>, vars: Vec<std::sync::Arc<Vec<u32>>> }

pub fn fold(op: Op, w: u16, aw: u16, bw: u16, x: u128, y: u128, z: u128, k: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Const | Op::Var => unreachable!(),
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { if a >= 0 { m } else { 1 } } else { (a.wrapping_div(b) as u128) & m } }
        Op::SRem => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m } }
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 }; ((sx(x, w) >> s) as u128) & m }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sx(x, aw) < sx(y, aw)) as u128,
        Op::Sle => (sx(x, aw) <= sx(y, aw)) as u128,
        Op::Ite => if x != 0 { y } else { z },
        Op::Zext => x,
        Op::Sext => (sx(x, aw) as u128) & m,
        Op::Extract => (x >> k) & m,
        Op::Concat => (x << bw) | y,
    }
}

impl Arena {
    pub fn new() -> Arena { Arena { n: vec![], map: HashMap::new(), vars: vec![] } }
    pub fn w(&self, e: E) -> u16 { self.n[e as usize].w }
    pub fn con(&self, e: E) -> Option<u128> { let n = &self.n[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.n.len() as E;
        let arity = match n.op { Op::Const | Op::Var => 0, Op::Zext | Op::Sext | Op::Extract => 1, Op::Ite => 3, _ => 2 };
        let mut v: Vec<u32> = vec![];
        if n.op == Op::Var { v.push(n.k as u32); }
        for &x in [n.a, n.b, n.c].iter().take(arity) { for &y in self.vars[x as usize].iter() { if let Err(i) = v.binary_search(&y) { v.insert(i, y); } } }
        // share the list when it equals a child's
        let mut shared = None;
        for &x in [n.a, n.b, n.c].iter().take(arity) { if *self.vars[x as usize] == v { shared = Some(self.vars[x as usize].clone()); break; } }
        self.vars.push(shared.unwrap_or_else(|| std::sync::Arc::new(v)));
        self.n.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn vars(&self, e: E) -> &std::sync::Arc<Vec<u32>> { &self.vars[e as usize] }
    pub fn k(&mut self, v: u128, w: u16) -> E { self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn var(&mut self, i: u32, w: u16) -> E { self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: i as u128 }) }
    pub fn not(&mut self, e: E) -> E {
        let n = self.n[e as usize];
        match n.op {
            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.k(1, 1);
        self.bin(Op::Xor, e, one)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let aw = self.w(a);
        let bw = self.w(b);
        assert!(op == Op::Concat || aw == bw, "widths differ: {:?} {} {}", op, aw, bw);
        let w = if cmp { 1 } else if op == Op::Concat { aw + bw } else { aw };
        if let (Some(x), Some(y)) = (self.con(a), self.con(b)) { let v = fold(op, w, aw, bw, x, y, 0, 0); return self.k(v, w); }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            // constants to the right, else by number
            if self.con(a).is_some() || (self.con(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let kb = self.con(b);
        let na = self.n[a as usize];
        let m = mask(aw);
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let (Some(y), Op::Add) = (kb, na.op) { if let Some(x) = self.con(na.b) { let k = self.k(x.wrapping_add(y), aw); return self.bin(Op::Add, na.a, k); } }
                // x + (y - x)
                let nb = self.n[b as usize];
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
                if na.op == Op::Sub && na.b == b { return na.a; }
            }
            Op::Sub => {
                if a == b { return self.k(0, aw); }
                if let Some(y) = kb { let k = self.k(0u128.wrapping_sub(y), aw); return self.bin(Op::Add, a, k); }
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
            }
            Op::Mul => { if kb == Some(0) { return b; } if kb == Some(1) { return a; } if let Some(y) = kb { if y.is_power_of_two() { let k = self.k(y.trailing_zeros() as u128, aw); return self.bin(Op::Shl, a, k); } } }
            Op::UDiv => { if kb == Some(1) { return a; } if let Some(y) = kb { if y.is_power_of_two() { let k = self.k(y.trailing_zeros() as u128, aw); return self.bin(Op::LShr, a, k); } } }
            Op::URem => { if kb == Some(1) { return self.k(0, aw); } if let Some(y) = kb { if y.is_power_of_two() { let k = self.k(y - 1, aw); return self.bin(Op::And, a, k); } } }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) { return a; }
                if let Some(s) = kb {
                    if s >= aw as u128 && op != Op::AShr { return self.k(0, aw); }
                    if s < aw as u128 {
                        let s = s as u16;
                        if op == Op::LShr { let x = self.extract(a, aw - 1, s); return self.zext(x, aw); }
                        if op == Op::Shl { let x = self.extract(a, aw - 1 - s, 0); let z = self.k(0, s); return self.bin(Op::Concat, x, z); }
                    }
                }
            }
            Op::And => {
                if a == b || kb == Some(m) { return a; }
                if kb == Some(0) { return b; }
                if let Some(y) = kb {
                    // a low mask is an extract
                    let n = (y + 1).trailing_zeros() as u16;
                    if y.wrapping_add(1).is_power_of_two() && n < aw { let x = self.extract(a, n - 1, 0); return self.zext(x, aw); }
                    if na.op == Op::Zext && y & mask(self.w(na.a)) == 0 { return self.k(0, aw); }
                    if na.op == Op::Zext { let iw = self.w(na.a); let k = self.k(y & mask(iw), iw); let x = self.bin(Op::And, na.a, k); return self.zext(x, aw); }
                }
                if aw == 1 { let nb = self.n[b as usize]; if (na.op == Op::Xor && na.a == b) || (nb.op == Op::Xor && nb.a == a) { if self.con(self.n[if na.op == Op::Xor && na.a == b { a } else { b } as usize].b) == Some(1) { return self.k(0, 1); } } }
            }
            Op::Or => { if a == b || kb == Some(0) { return a; } if kb == Some(m) { return b; }
                // or of disjoint parts built by shifts
                let nb = self.n[b as usize];
                for (hi, lo) in [(na, b), (nb, a)] {
                    let nl = self.n[lo as usize];
                    if hi.op == Op::Concat && self.con(hi.b) == Some(0) && nl.op == Op::Zext && self.w(nl.a) <= self.w(hi.b) {
                        let low = self.zext(nl.a, self.w(hi.b));
                        return self.bin(Op::Concat, hi.a, low);
                    }
                }
            }
            Op::Xor => {
                if a == b { return self.k(0, aw); }
                if kb == Some(0) { return a; }
                if let (Some(y), Op::Xor) = (kb, na.op) { if let Some(x) = self.con(na.b) { let k = self.k(x ^ y, aw); return self.bin(Op::Xor, na.a, k); } }
                if aw == 1 && kb == Some(1) { match na.op { Op::Ult | Op::Ule | Op::Slt | Op::Sle => return self.not(a), _ => {} } }
            }
            Op::Eq => {
                if a == b { return self.k(1, 1); }
                if let Some(y) = kb {
                    if aw == 1 { return if y == 1 { a } else { self.not(a) }; }
                    match na.op {
                        Op::Zext => { let iw = self.w(na.a); if y > mask(iw) { return self.k(0, 1); } let k = self.k(y, iw); return self.bin(Op::Eq, na.a, k); }
                        Op::Sext => { let iw = self.w(na.a); if (sx(y & mask(iw), iw) as u128) & m != y { return self.k(0, 1); } let k = self.k(y, iw); return self.bin(Op::Eq, na.a, k); }
                        Op::Add => if let Some(x) = self.con(na.b) { let k = self.k(y.wrapping_sub(x), aw); return self.bin(Op::Eq, na.a, k); },
                        Op::Xor => if let Some(x) = self.con(na.b) { let k = self.k(y ^ x, aw); return self.bin(Op::Eq, na.a, k); },
                        Op::Sub => if y == 0 { return self.bin(Op::Eq, na.a, na.b); },
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let (kh, kl) = (self.k(y >> lw, aw - lw), self.k(y, lw));
                            let h = self.bin(Op::Eq, na.a, kh);
                            if self.con(h) == Some(0) { return h; }
                            let l = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            let (t, f) = (self.con(na.b), self.con(na.c));
                            if t.is_some() || f.is_some() {
                                let t = self.bin(Op::Eq, na.b, b);
                                let f = self.bin(Op::Eq, na.c, b);
                                if self.con(t).is_some() || self.con(f).is_some() { return self.ite(na.a, t, f); }
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n[b as usize];
                    if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                    if na.op == Op::Sext && nb.op == Op::Sext && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.k((op == Op::Ule) as u128, 1); }
                let nb = self.n[b as usize];
                let ka = self.con(a);
                if op == Op::Ult && kb == Some(0) { return self.k(0, 1); }
                if op == Op::Ule && (kb == Some(m) || ka == Some(0)) { return self.k(1, 1); }
                if op == Op::Ult && ka == Some(m) { return self.k(0, 1); }
                if op == Op::Ult && kb == Some(1) { let z = self.k(0, aw); return self.bin(Op::Eq, a, z); }
                if op == Op::Ule && kb == Some(0) { return self.bin(Op::Eq, a, b); }
                if op == Op::Ult && ka == Some(0) { let q = self.bin(Op::Eq, b, a); return self.not(q); }
                if na.op == Op::Zext {
                    let iw = self.w(na.a);
                    if let Some(y) = kb { if y > mask(iw) { return self.k(1, 1); } let k = self.k(y, iw); return self.bin(op, na.a, k); }
                    if nb.op == Op::Zext && self.w(nb.a) == iw { return self.bin(op, na.a, nb.a); }
                }
                if let (Some(x), Op::Zext) = (ka, nb.op) { let iw = self.w(nb.a); if x > mask(iw) { return self.k(0, 1); } let k = self.k(x, iw); return self.bin(op, k, nb.a); }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.k((op == Op::Sle) as u128, 1); }
                let nb = self.n[b as usize];
                // both non-negative
                let pos = |n: &Node, k: Option<u128>| n.op == Op::Zext || k.map_or(false, |v| v >> (aw - 1) == 0);
                let ka = self.con(a);
                if pos(&na, ka) && pos(&nb, kb) { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
            }
            Op::Concat => {
                let nb = self.n[b as usize];
                if self.con(a) == Some(0) { return self.zext(b, w); }
                if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 { return self.extract(na.a, (na.k + na.w as u128 - 1) as u16, nb.k as u16); }
                // the upper byte of a zero extension
                if na.op == Op::Concat && nb.op == Op::Extract { let nab = self.n[na.b as usize]; if nab.op == Op::Extract && nab.a == nb.a && nab.k == nb.k + nb.w as u128 { let l = self.bin(Op::Concat, na.b, b); return self.bin(Op::Concat, na.a, l); } }
            }
            _ => {}
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.con(c) { return if v != 0 { t } else { f }; }
        if t == f { return t; }
        let w = self.w(t);
        if w == 1 {
            match (self.con(t), self.con(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, f),
                (Some(0), _) => { let n = self.not(c); return self.bin(Op::And, n, f); }
                (_, Some(0)) => return self.bin(Op::And, c, t),
                (_, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, t); }
                _ => {}
            }
        }
        let nc = self.n[c as usize];
        if nc.op == Op::Xor && self.con(nc.b) == Some(1) { return self.ite(nc.a, f, t); }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: f, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n[a as usize];
        if n.w == w { return a; }
        if n.op == Op::Const { return self.k(n.k, w); }
        if n.op == Op::Zext { return self.zext(n.a, w); }
        self.mk(Node { op: Op::Zext, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n[a as usize];
        if n.w == w { return a; }
        if n.op == Op::Const { return self.k(sx(n.k, n.w) as u128, w); }
        if n.op == Op::Zext { return self.zext(n.a, w); }
        self.mk(Node { op: Op::Sext, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, hi: u16, lo: u16) -> E {
        let n = self.n[a as usize];
        let w = hi - lo + 1;
        if w == n.w { return a; }
        match n.op {
            Op::Const => return self.k(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, hi + n.k as u16, lo + n.k as u16),
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw { return self.k(0, w); }
                if hi < iw { return self.extract(n.a, hi, lo); }
                let x = self.extract(n.a, iw - 1, lo);
                return self.zext(x, w);
            }
            Op::Sext => { let iw = self.w(n.a); if hi < iw { return self.extract(n.a, hi, lo); } }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw { return self.extract(n.b, hi, lo); }
                if lo >= lw { return self.extract(n.a, hi - lw, lo - lw); }
                let (h, l) = (self.extract(n.a, hi - lw, 0), self.extract(n.b, lw - 1, lo));
                return self.bin(Op::Concat, h, l);
            }
            Op::And | Op::Or | Op::Xor => { let (x, y) = (self.extract(n.a, hi, lo), self.extract(n.b, hi, lo)); return self.bin(n.op, x, y); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let (x, y) = (self.extract(n.a, hi, 0), self.extract(n.b, hi, 0)); return self.bin(n.op, x, y); }
            Op::Ite => { let (x, y) = (self.extract(n.b, hi, lo), self.extract(n.c, hi, lo)); return self.ite(n.a, x, y); }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn eval(&self, e: E, model: &[u128]) -> u128 {
        let mut memo = HashMap::new();
        self.ev(e, model, &mut memo)
    }
    fn ev(&self, e: E, model: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
        let n = &self.n[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) { return v; }
        let v = match n.op {
            Op::Zext | Op::Sext | Op::Extract => { let x = self.ev(n.a, model, memo); fold(n.op, n.w, self.w(n.a), 0, x, 0, 0, n.k) }
            Op::Ite => { let c = self.ev(n.a, model, memo); if c != 0 { self.ev(n.b, model, memo) } else { self.ev(n.c, model, memo) } }
            _ => { let x = self.ev(n.a, model, memo); let y = self.ev(n.b, model, memo); fold(n.op, n.w, self.w(n.a), self.w(n.b), x, y, 0, 0) }
        };
        memo.insert(e, v);
        v
    }
    /// SMT-LIB definitions for everything below `roots`, in order, and a term for each root
    pub fn smt(&self, roots: &[E], out: &mut String) -> Vec<String> {
        let mut done: HashMap<E, ()> = HashMap::new();
        for &r in roots { self.smt_def(r, &mut done, out); }
        roots.iter().map(|&r| self.name(r)).collect()
    }
    fn name(&self, e: E) -> String {
        let n = &self.n[e as usize];
        match n.op { Op::Const => format!("(_ bv{} {})", n.k, n.w), Op::Var => format!("x{}_{}", n.k, n.w), _ => format!("n{}", e) }
    }
    fn smt_def(&self, r: E, done: &mut HashMap<E, ()>, out: &mut String) {
        let mut stack = vec![(r, false)];
        while let Some((e, ready)) = stack.pop() {
            let n = self.n[e as usize];
            if matches!(n.op, Op::Const | Op::Var) || done.contains_key(&e) { continue; }
            let kids: &[E] = match n.op { Op::Zext | Op::Sext | Op::Extract => &[n.a], Op::Ite => &[n.a, n.b, n.c], _ => &[n.a, n.b] };
            if !ready { stack.push((e, true)); for &k in kids { stack.push((k, false)); } continue; }
            done.insert(e, ());
            let (a, b) = (self.name(n.a), self.name(n.b));
            let bvbool = |s: String| format!("(ite {} #b1 #b0)", s);
            let t = match n.op {
                Op::Add => format!("(bvadd {} {})", a, b), Op::Sub => format!("(bvsub {} {})", a, b), Op::Mul => format!("(bvmul {} {})", a, b),
                Op::UDiv => format!("(bvudiv {} {})", a, b), Op::URem => format!("(bvurem {} {})", a, b), Op::SDiv => format!("(bvsdiv {} {})", a, b), Op::SRem => format!("(bvsrem {} {})", a, b),
                Op::Shl => format!("(bvshl {} {})", a, b), Op::LShr => format!("(bvlshr {} {})", a, b), Op::AShr => format!("(bvashr {} {})", a, b),
                Op::And => format!("(bvand {} {})", a, b), Op::Or => format!("(bvor {} {})", a, b), Op::Xor => format!("(bvxor {} {})", a, b),
                Op::Eq => bvbool(format!("(= {} {})", a, b)), Op::Ult => bvbool(format!("(bvult {} {})", a, b)), Op::Ule => bvbool(format!("(bvule {} {})", a, b)),
                Op::Slt => bvbool(format!("(bvslt {} {})", a, b)), Op::Sle => bvbool(format!("(bvsle {} {})", a, b)),
                Op::Ite => format!("(ite (= {} #b1) {} {})", a, b, self.name(n.c)),
                Op::Zext => format!("((_ zero_extend {}) {})", n.w - self.w(n.a), a), Op::Sext => format!("((_ sign_extend {}) {})", n.w - self.w(n.a), a),
                Op::Extract => format!("((_ extract {} {}) {})", n.k as u16 + n.w - 1, n.k, a), Op::Concat => format!("(concat {} {})", a, b),
                _ => unreachable!(),
            };
            out.push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", e, n.w, t));
        }
    }
}
