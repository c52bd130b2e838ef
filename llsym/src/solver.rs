//! A long-lived SMT solver process spoken to over SMT-LIB 2 (QF_BV).
use std::collections::HashSet;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};
use crate::expr::*;

pub struct Solver { cmd: Vec<String>, child: Child, inp: ChildStdin, out: BufReader<ChildStdout>, declared: HashSet<(u32, u16)>, since: u64, pub queries: u64, pub time: Duration, pub slowest: Duration }

#[derive(PartialEq, Debug, Clone)]
pub enum Ans { Sat(Vec<(u32, u128)>), Unsat, Unknown(String) }

pub fn solver_cmd() -> Vec<String> {
    std::env::var("LLSYM_SOLVER").unwrap_or("z3 -in -smt2 -t:60000".into()).split_whitespace().map(|s| s.to_string()).collect()
}

fn start(c: &[String]) -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let mut child = Command::new(&c[0]).args(&c[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
    let mut inp = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    inp.write_all(b"(set-option :produce-models true)\n(set-logic QF_BV)\n").expect("solver pipe");
    (child, inp, out)
}

impl Solver {
    pub fn new() -> Solver { Solver::new_cmd(&solver_cmd()) }
    pub fn new_cmd(cmd: &[String]) -> Solver {
        let (child, inp, out) = start(cmd);
        Solver { cmd: cmd.to_vec(), child, inp, out, declared: HashSet::new(), since: 0, queries: 0, time: Duration::ZERO, slowest: Duration::ZERO }
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        let n = self.out.read_line(&mut l).unwrap_or(0);
        if n == 0 { return "solver ended".into(); }
        l.trim().to_string()
    }
    /// Is the conjunction of `cs` satisfiable?  A model of its variables comes back when it is.
    pub fn check(&mut self, ar: &Arena, cs: &[E]) -> Ans {
        let t0 = Instant::now();
        self.queries += 1;
        self.since += 1;
        if self.since > 3000 {
            // a fresh process now and then keeps the solver's memory small
            let _ = self.child.kill(); let _ = self.child.wait();
            let (c, i, o) = start(&self.cmd.clone());
            self.child = c; self.inp = i; self.out = o; self.declared.clear(); self.since = 0;
        }
        let mut vars: Vec<(u32, u16)> = vec![];
        let mut t = String::new();
        let mut seen = HashSet::new();
        let mut st: Vec<E> = cs.to_vec();
        while let Some(e) = st.pop() {
            if !seen.insert(e) { continue; }
            let n = &ar.n[e as usize];
            match n.op {
                Op::Var => { let v = (n.k as u32, n.w); vars.push(v); if self.declared.insert(v) { t.push_str(&format!("(declare-const x{}_{} (_ BitVec {}))\n", v.0, v.1, v.1)); } }
                Op::Const => {}
                Op::Zext | Op::Sext | Op::Extract => st.push(n.a),
                Op::Ite => { st.push(n.a); st.push(n.b); st.push(n.c); }
                _ => { st.push(n.a); st.push(n.b); }
            }
        }
        vars.sort();
        t.push_str("(push 1)\n");
        let names = ar.smt(cs, &mut t);
        for n in names { t.push_str(&format!("(assert (= {} #b1))\n", n)); }
        t.push_str("(check-sat)\n");
        if self.inp.write_all(t.as_bytes()).is_err() || self.inp.flush().is_err() { return Ans::Unknown("solver pipe".into()); }
        let l = self.line();
        let ans = match l.as_str() {
            "unsat" => Ans::Unsat,
            "sat" => {
                let mut m = vec![];
                if !vars.is_empty() {
                    let q: Vec<String> = vars.iter().map(|v| format!("x{}_{}", v.0, v.1)).collect();
                    let _ = self.inp.write_all(format!("(get-value ({}))\n", q.join(" ")).as_bytes());
                    let _ = self.inp.flush();
                    let mut txt = String::new();
                    loop { let l = self.line(); txt.push_str(&l); txt.push(' '); let o = txt.matches('(').count(); if o == txt.matches(')').count() || l == "solver ended" { break; } }
                    let toks: Vec<String> = txt.replace('(', " ").replace(')', " ").split_whitespace().map(|s| s.to_string()).collect();
                    let mut i = 0;
                    for v in &vars {
                        let name = format!("x{}_{}", v.0, v.1);
                        while i < toks.len() && toks[i] != name { i += 1; }
                        let val = toks.get(i + 1).cloned().unwrap_or_default();
                        let n = if val.starts_with("#x") { u128::from_str_radix(&val[2..], 16).ok() } else if val.starts_with("#b") { u128::from_str_radix(&val[2..], 2).ok() } else if val == "_" { toks.get(i + 2).and_then(|s| s.strip_prefix("bv")).and_then(|s| s.parse().ok()) } else { None };
                        match n { Some(n) => m.push((v.0, n)), None => return Ans::Unknown(format!("no value for {} in {}", name, txt)) }
                    }
                }
                Ans::Sat(m)
            }
            _ => Ans::Unknown(l),
        };
        let _ = self.inp.write_all(b"(pop 1)\n");
        let d = t0.elapsed();
        self.time += d;
        if d > self.slowest { self.slowest = d; }
        ans
    }
}
impl Drop for Solver { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
