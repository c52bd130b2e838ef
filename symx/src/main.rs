//! symx: path-forking symbolic execution of concordance over symbolic symbols.
//!   symx run <property> <quick|thorough> <out.json> [seconds]
//!   symx native <property> <tier> <case> <v0,v1,...>     replay one case on concrete values
//!   symx trace <property> <tier> <case> <decisions> <model-file>
mod engine; mod expr; mod solver; mod explore; mod pat; mod shapes;
mod p_pattern; mod p_map; mod p_nfa; mod p_dfa; mod p_token; mod p_lazy; mod p_stack;
use explore::*;
use engine::End;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tier { Quick, Thorough }

static TWIN: AtomicBool = AtomicBool::new(false);
/// true while the deliberately wrong version of the specification is being tried
pub fn twin() -> bool { TWIN.load(SeqCst) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { eprintln!("usage: symx run|native|trace PROPERTY TIER ..."); std::process::exit(2); }
    std::panic::set_hook(Box::new(|_| {}));
    let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a[2].as_str() {
        "C01" => go(p_pattern::C01::new(tier, seed), &a),
        "C02" => go(p_pattern::C02::new(tier, seed), &a),
        "C03" => go(p_nfa::C03::new(tier, seed), &a),
        "C04" => go(p_nfa::C04::new(tier, seed), &a),
        "C05" => go(p_map::C05::new(tier), &a),
        "C06" => go(p_map::C06::new(tier), &a),
        "C09" => go(p_map::C09::new(tier, seed), &a),
        "C10" => go(p_dfa::C10::new(tier), &a),
        "C13" => go(p_token::C13::new(tier, seed), &a),
        "C14" => go(p_token::C14::new(tier, seed), &a),
        "C16" => go(p_token::C16::new(tier, seed), &a),
        "C18" => go(p_pattern::C18::new(tier, seed), &a),
        "C19" => go(p_pattern::C19::new(tier, seed), &a),
        "C20" => go(p_pattern::C20::new(tier, seed), &a),
        "C22" => go(p_lazy::C22::new(tier, seed), &a),
        "C24" => go(p_stack::C24::new(tier, seed), &a),
        "C21" => go(p_pattern::C21::new(tier, seed), &a),
        p => { eprintln!("unknown property {}", p); 2 }
    };
    std::process::exit(code);
}

fn csv(m: &[i32]) -> String { m.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }

fn go<H: Harness>(h: H, a: &[String]) -> i32 {
    match a[1].as_str() {
        "run" => run(h, a),
        "native" => {
            let case: usize = a[4].parse().unwrap();
            let model: Vec<i32> = a.get(5).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or(vec![]);
            let h = Arc::new(h);
            println!("case: {}", h.describe(case));
            match run_native(&h, case, model, Duration::from_secs(10)) {
                None => { println!("RESULT: violated: does not terminate"); 3 }
                Some((failed, end, _, notes)) => {
                    for n in notes { println!("  {}", n); }
                    match &end {
                        End::Done => {}
                        End::Infeasible => { println!("RESULT: the values are outside the assumptions"); return 0; }
                        e => { println!("RESULT: violated: the code ended with {:?}", e); return 3; }
                    }
                    if failed.is_empty() { println!("RESULT: held"); 0 } else { for f in &failed { println!("RESULT: violated: {}", f); } 3 }
                }
            }
        }
        "trace" => {
            let case: usize = a[4].parse().unwrap();
            let bits: Vec<bool> = a[5].chars().filter(|c| *c != '-').map(|c| c == '1').collect();
            engine::TRACE.with(|t| *t.borrow_mut() = Some(a[6].clone()));
            trace_path(&Arc::new(h), case, bits, a[6].clone());
            0
        }
        _ => 2,
    }
}

fn run<H: Harness>(h: H, a: &[String]) -> i32 {
    let out = &a[4];
    let secs: u64 = a.get(5).map(|s| s.parse().unwrap()).unwrap_or(600);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let opts = |secs: u64, every: u64| Opts { threads, deadline: Duration::from_secs(secs), native_every: every, max_ticks: 5_000_000, path_timeout: Duration::from_secs(20), crumbs: Some(format!("{}.crumbs", out)) };
    let h = Arc::new(h);
    // the wrong twin of the specification must be refuted, or the check could not fail at all
    TWIN.store(true, SeqCst);
    let tw = explore(h.clone(), opts(secs.min(120), 1 << 40));
    TWIN.store(false, SeqCst);
    let twin_ok = tw.findings.iter().any(|f| f.kind == "assertion");
    let twin_note = tw.findings.first().map(|f| format!("{} [{}]", f.label, h.describe(f.case))).unwrap_or_default();
    let mut r = explore(h.clone(), opts(secs, 1));
    if !twin_ok && r.findings.is_empty() { r.errors.push(format!("the deliberately wrong specification was not refuted {:?}", tw.errors)); }
    let s = &r.stats;
    let j = serde_json::json!({
        "property": a[2], "tier": a[3], "cases": r.cases, "case_examples": (0..r.cases).step_by((r.cases / 6).max(1)).map(|c| h.describe(c)).collect::<Vec<_>>(),
        "complete": r.complete, "wall_s": r.wall, "paths": s.paths, "leaves": s.leaves, "infeasible": s.infeasible, "forks": s.forks, "decisions": s.decisions, "obligations": s.obligations,
        "pruned_branches_rechecked": s.implied, "queries": s.queries, "solver_s": s.solver_s, "native_replays": s.native, "max_depth": s.max_depth, "max_vars": s.max_vars, "samples": s.samples,
        "wrong_twin_refuted": twin_ok, "wrong_twin": twin_note, "unfinished": r.unfinished.iter().map(|c| h.describe(*c)).collect::<Vec<_>>(), "solver": solver::solver_cmd().join(" "),
        "errors": r.errors, "known": *engine::SEEN.lock().unwrap(),
        "findings": r.findings.iter().map(|f| serde_json::json!({"case": f.case, "describe": h.describe(f.case), "label": f.label, "model": csv(&f.model), "names": f.names, "kind": f.kind, "decisions": f.decisions})).collect::<Vec<_>>(),
    });
    std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).expect("report");
    // stuck path threads must not keep the process alive
    if !r.findings.is_empty() { 1 } else if !r.errors.is_empty() { 2 } else { 0 }
}
