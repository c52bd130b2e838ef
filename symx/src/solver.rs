//! A long-lived SMT solver process spoken to over SMT-LIB 2.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};
use crate::expr::{B, DOM_MAX};

pub struct Solver { _child: Child, inp: ChildStdin, out: BufReader<ChildStdout>, pub queries: u64, pub time: Duration }

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Ans { Sat, Unsat }

pub fn solver_cmd() -> Vec<String> {
    std::env::var("SYMX_SOLVER").unwrap_or("z3 -in -smt2".into()).split_whitespace().map(|s| s.to_string()).collect()
}

impl Solver {
    pub fn new(nvars: usize) -> Solver {
        let c = solver_cmd();
        let mut child = Command::new(&c[0]).args(&c[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver { _child: child, inp, out, queries: 0, time: Duration::ZERO };
        let mut h = String::from("(set-option :produce-models true)\n");
        h.push_str(&format!("(set-logic {})\n", std::env::var("SYMX_LOGIC").unwrap_or("QF_LIA".into())));
        for i in 0..nvars { h.push_str(&format!("(declare-const v{} Int)(assert (<= 0 v{}))(assert (<= v{} {}))\n", i, i, i, DOM_MAX)); }
        s.send(&h);
        s
    }
    fn send(&mut self, t: &str) { self.inp.write_all(t.as_bytes()).expect("solver pipe"); self.inp.flush().expect("solver pipe"); }
    fn line(&mut self) -> String {
        let mut l = String::new();
        let n = self.out.read_line(&mut l).expect("solver pipe");
        if n == 0 { panic!("solver ended"); }
        l.trim().to_string()
    }
    /// Is `f` satisfiable?  With `nv`, a model of v0..nv-1 is returned when it is.
    pub fn check(&mut self, f: &B, nv: Option<usize>) -> (Ans, Vec<i32>) {
        let t0 = Instant::now();
        self.queries += 1;
        let (defs, f) = f.smt();
        self.send(&format!("(push 1)\n{}(assert {})\n(check-sat)\n", defs, f));
        let l = self.line();
        let ans = match l.as_str() { "sat" => Ans::Sat, "unsat" => Ans::Unsat, _ => panic!("solver said: {}", l) };
        let mut m = vec![];
        if let (Ans::Sat, Some(n)) = (ans, nv) {
            for i in 0..n {
                self.send(&format!("(get-value (v{}))\n", i));
                let l = self.line(); // ((v0 5))
                let v = l.trim_matches(|c| c == '(' || c == ')').split_whitespace().nth(1).expect("value").parse::<i32>().expect("value");
                m.push(v);
            }
        }
        self.send("(pop 1)\n");
        self.time += t0.elapsed();
        (ans, m)
    }
}
