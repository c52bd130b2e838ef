//! Terms (variable + constant offset) and boolean formulas over them.
use std::rc::Rc;

pub const NOVAR: u16 = u16::MAX;
pub const DOM_MAX: i32 = 255; // the symbol domain is that of u8: 0..=255

/// value(var) + off, or just off when var == NOVAR
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Term { pub var: u16, pub off: i32 }

impl Term {
    pub fn cst(c: i32) -> Term { Term { var: NOVAR, off: c } }
    pub fn eval(&self, m: &[i32]) -> i32 { if self.var == NOVAR { self.off } else { m[self.var as usize] + self.off } }
    pub fn smt(&self) -> String {
        if self.var == NOVAR {
            if self.off < 0 { format!("(- {})", -self.off) } else { format!("{}", self.off) }
        } else if self.off == 0 { format!("v{}", self.var) }
        else if self.off > 0 { format!("(+ v{} {})", self.var, self.off) }
        else { format!("(- v{} {})", self.var, -self.off) }
    }
}

/// The difference atom  x - y <= c   (x / y may be NOVAR, standing for 0)
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Atom { pub x: u16, pub y: u16, pub c: i32 }

impl Atom {
    /// a <= b
    pub fn le(a: Term, b: Term) -> Atom { Atom { x: a.var, y: b.var, c: b.off - a.off } }
    /// a < b
    pub fn lt(a: Term, b: Term) -> Atom { Atom { x: a.var, y: b.var, c: b.off - a.off - 1 } }
    pub fn neg(self) -> Atom { Atom { x: self.y, y: self.x, c: -self.c - 1 } }
    /// Some(truth) when the atom has no variables left
    pub fn konst(&self) -> Option<bool> { if self.x == self.y { Some(0 <= self.c) } else { None } }
    pub fn eval(&self, m: &[i32]) -> bool {
        let v = |i: u16| if i == NOVAR { 0 } else { m[i as usize] };
        v(self.x) - v(self.y) <= self.c
    }
    pub fn smt(&self) -> String { let mut s = String::new(); self.write(&mut s); s }
    pub fn write(&self, out: &mut String) {
        use std::fmt::Write;
        let n = |out: &mut String, c: i32| { let _ = if c < 0 { write!(out, "(- {})", -c) } else { write!(out, "{}", c) }; };
        match (self.x, self.y) {
            (NOVAR, NOVAR) => { let _ = write!(out, "{}", 0 <= self.c); }
            (x, NOVAR) => { let _ = write!(out, "(<= v{} ", x); n(out, self.c); out.push(')'); }
            (NOVAR, y) => { let _ = write!(out, "(>= v{} ", y); n(out, -self.c); out.push(')'); }
            (x, y) => { let _ = write!(out, "(<= (- v{} v{}) ", x, y); n(out, self.c); out.push(')'); }
        }
    }
}

#[derive(Debug)]
pub enum Node { Const(bool), Atom(Atom), Not(B), And(Vec<B>), Or(Vec<B>) }

/// A shared boolean formula
#[derive(Clone, Debug)]
pub struct B(pub Rc<Node>);

impl B {
    pub fn c(b: bool) -> B { B(Rc::new(Node::Const(b))) }
    pub fn t() -> B { B::c(true) }
    pub fn f() -> B { B::c(false) }
    pub fn atom(a: Atom) -> B { match a.konst() { Some(b) => B::c(b), None => B(Rc::new(Node::Atom(a))) } }
    pub fn le(a: Term, b: Term) -> B { B::atom(Atom::le(a, b)) }
    pub fn lt(a: Term, b: Term) -> B { B::atom(Atom::lt(a, b)) }
    pub fn eq(a: Term, b: Term) -> B { B::le(a, b).and(&B::le(b, a)) }
    pub fn is(&self) -> Option<bool> { if let Node::Const(b) = &*self.0 { Some(*b) } else { None } }
    pub fn not(&self) -> B {
        match &*self.0 {
            Node::Const(b) => B::c(!b),
            Node::Not(x) => x.clone(),
            Node::Atom(a) => B::atom(a.neg()),
            _ => B(Rc::new(Node::Not(self.clone()))),
        }
    }
    pub fn and(&self, o: &B) -> B {
        match (self.is(), o.is()) {
            (Some(false), _) | (_, Some(false)) => B::f(),
            (Some(true), _) => o.clone(),
            (_, Some(true)) => self.clone(),
            _ => B(Rc::new(Node::And(vec![self.clone(), o.clone()]))),
        }
    }
    pub fn or(&self, o: &B) -> B {
        match (self.is(), o.is()) {
            (Some(true), _) | (_, Some(true)) => B::t(),
            (Some(false), _) => o.clone(),
            (_, Some(false)) => self.clone(),
            _ => B(Rc::new(Node::Or(vec![self.clone(), o.clone()]))),
        }
    }
    pub fn iff(&self, o: &B) -> B { self.and(o).or(&self.not().and(&o.not())) }
    pub fn all<I: IntoIterator<Item = B>>(it: I) -> B {
        let mut v = vec![];
        for b in it { match b.is() { Some(true) => {}, Some(false) => return B::f(), None => v.push(b) } }
        match v.len() { 0 => B::t(), 1 => v.pop().unwrap(), _ => B(Rc::new(Node::And(v))) }
    }
    pub fn any<I: IntoIterator<Item = B>>(it: I) -> B {
        let mut v = vec![];
        for b in it { match b.is() { Some(false) => {}, Some(true) => return B::t(), None => v.push(b) } }
        match v.len() { 0 => B::f(), 1 => v.pop().unwrap(), _ => B(Rc::new(Node::Or(v))) }
    }
    pub fn eval(&self, m: &[i32]) -> bool {
        use std::collections::HashMap;
        fn go(b: &B, m: &[i32], memo: &mut HashMap<*const Node, bool>) -> bool {
            let k = Rc::as_ptr(&b.0);
            if let Some(r) = memo.get(&k) { return *r; }
            let r = match &*b.0 {
                Node::Const(c) => *c,
                Node::Atom(a) => a.eval(m),
                Node::Not(x) => !go(x, m, memo),
                Node::And(v) => v.iter().all(|x| go(x, m, memo)),
                Node::Or(v) => v.iter().any(|x| go(x, m, memo)),
            };
            memo.insert(k, r);
            r
        }
        go(self, m, &mut HashMap::new())
    }
    /// Prints as SMT-LIB: definitions for shared nodes, and the formula over them
    pub fn smt(&self) -> (String, String) {
        use std::collections::HashMap;
        fn count(b: &B, n: &mut HashMap<*const Node, usize>) {
            let k = Rc::as_ptr(&b.0);
            let e = n.entry(k).or_insert(0);
            *e += 1;
            if *e > 1 { return; }
            match &*b.0 {
                Node::Not(x) => count(x, n),
                Node::And(v) | Node::Or(v) => for x in v { count(x, n) },
                _ => {}
            }
        }
        fn list(out: &mut String, op: &str, v: &[B], n: &HashMap<*const Node, usize>, names: &mut HashMap<*const Node, usize>, defs: &mut String) {
            out.push_str(op);
            for x in v { out.push(' '); go(out, x, n, names, defs); }
            out.push(')');
        }
        fn go(out: &mut String, b: &B, n: &HashMap<*const Node, usize>, names: &mut HashMap<*const Node, usize>, defs: &mut String) {
            use std::fmt::Write;
            let k = Rc::as_ptr(&b.0);
            if let Some(i) = names.get(&k) { let _ = write!(out, "s{}", i); return; }
            let compound = |s: &mut String, names: &mut HashMap<*const Node, usize>, defs: &mut String| match &*b.0 {
                Node::Const(c) => { let _ = write!(s, "{}", c); }
                Node::Atom(a) => a.write(s),
                Node::Not(x) => { s.push_str("(not "); go(s, x, n, names, defs); s.push(')'); }
                Node::And(v) => list(s, "(and", v, n, names, defs),
                Node::Or(v) => list(s, "(or", v, n, names, defs),
            };
            if n[&k] > 1 && !matches!(&*b.0, Node::Const(_) | Node::Atom(_)) {
                let mut s = String::new();
                compound(&mut s, names, defs);
                let i = names.len();
                names.insert(k, i);
                let _ = writeln!(defs, "(define-fun s{} () Bool {})", i, s);
                let _ = write!(out, "s{}", i);
            } else { compound(out, names, defs); }
        }
        let mut n = HashMap::new();
        count(self, &mut n);
        let (mut names, mut defs, mut body) = (HashMap::new(), String::new(), String::new());
        go(&mut body, self, &n, &mut names, &mut defs);
        (defs, body)
    }
}
