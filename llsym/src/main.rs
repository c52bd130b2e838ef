mod expr;
mod ir;
mod solver;
mod exec;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use exec::*;

struct Job { case: u32, twin: u32, model: Vec<u128>, decs: Vec<Dec>, late: bool }
/// `later`: work of cases that took more than their share of the time; it waits until the others are through
struct Queue { q: VecDeque<Job>, later: VecDeque<Job>, busy: usize, stop: Option<String>, open: BTreeSet<u32>, out_of_time: bool }

fn js(s: &str) -> String { let mut r = String::from("\""); for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)), c => r.push(c) } } r.push('"'); r }
fn vals(m: &[u128]) -> String { if m.is_empty() { "-".into() } else { m.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",") } }

/// source positions of the repository that an instruction stands for
fn places(m: &ir::Module, line: &str, out: &mut BTreeSet<(String, u32)>, fns: &mut BTreeSet<String>, memo: &mut HashMap<u32, Vec<(String, u32, String)>>) {
    let Some(p) = line.find("!dbg !") else { return };
    let id: String = line[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
    let Ok(id) = id.parse::<u32>() else { return };
    let v = memo.entry(id).or_insert_with(|| {
        let field = |s: &str, k: &str| -> Option<u32> { let i = s.find(&format!("{}: !", k))?; s[i + k.len() + 3..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok() };
        let mut r = vec![];
        let mut loc = Some(id);
        while let Some(l) = loc {
            let Some(t) = m.meta.get(&l) else { break };
            let no: u32 = t.find("line: ").map(|i| t[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)).unwrap_or(0);
            let mut sc = field(t, "scope");
            let mut name = String::new();
            let mut file = None;
            while let Some(s) = sc {
                let Some(t) = m.meta.get(&s) else { break };
                if file.is_none() { file = field(t, "file"); }
                if t.contains("DISubprogram") { if let Some(i) = t.find("name: \"") { name = t[i + 7..].split('"').next().unwrap().to_string(); } file = file.or(field(t, "file")); break; }
                sc = field(t, "scope");
            }
            if let Some(f) = file.and_then(|f| m.meta.get(&f)) { if let Some(i) = f.find("filename: \"") { let mut q = f[i + 11..].split('"'); let f = q.next().unwrap(); let dir = q.nth(1).unwrap_or(""); let f = &format!("{}/{}", dir, f); if let Some(k) = f.find("repo/src/") { r.push((f[k + 5..].to_string(), no, name.clone())); } } }
            loc = field(t, "inlinedAt");
        }
        r
    });
    for (f, l, n) in v.iter() { out.insert((f.clone(), *l)); fns.insert(format!("{}: {}", f.trim_start_matches("src/"), n)); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 7 || a[1] != "run" { eprintln!("llsym run IR HARNESS PROPERTY TIER OUT SECONDS [threads]"); std::process::exit(2); }
    let (ir, harness, prop, tier, out) = (&a[2], &a[3], &a[4], &a[5], &a[6]);
    let secs: u64 = a[7].parse().unwrap();
    let threads: usize = a.get(8).and_then(|s| s.parse().ok()).unwrap_or(8);
    let second = std::env::var("LLSYM_SECOND").is_ok();
    let t0 = Instant::now();
    let list = std::process::Command::new(harness).args(["list", prop, tier]).output().expect("harness list");
    let cases: Vec<(u32, String)> = String::from_utf8_lossy(&list.stdout).lines().filter_map(|l| { let (n, t) = l.split_once(' ')?; Some((n.parse().ok()?, t.to_string())) }).collect();
    if cases.is_empty() { eprintln!("no cases"); std::process::exit(2); }
    let m = Arc::new(ir::Module::load(ir));
    let only: Option<u32> = std::env::var("LLSYM_CASE").ok().and_then(|s| s.parse().ok());
    let twins = std::env::var("LLSYM_NOTWIN").is_err();
    let q = Arc::new((Mutex::new(Queue { q: VecDeque::new(), later: VecDeque::new(), busy: 0, stop: None, open: BTreeSet::new(), out_of_time: false }), Condvar::new()));
    {
        let mut g = q.0.lock().unwrap();
        for (c, _) in &cases { if only.map_or(true, |o| o == *c) { g.q.push_back(Job { case: *c, twin: 0, model: vec![], decs: vec![], late: false }); } }
        // the wrong specification must be refuted
        if twins && only.is_none() { let c = cases.iter().find(|c| c.1.contains("[twin]")).unwrap_or(&cases[cases.len() / 2]).0; g.q.push_front(Job { case: c, twin: 1, model: vec![], decs: vec![], late: false }); }
    }
    let waiting = Arc::new(AtomicUsize::new(0));
    let share = (secs * 1000 * threads as u64 / 12).max(1000);
    let spent: Arc<Mutex<HashMap<u32, u64>>> = Arc::new(Mutex::new(HashMap::new()));
    let per_case: Arc<Mutex<BTreeMap<u32, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let mut hs = vec![];
    for _ in 0..threads {
        let (m, q, waiting, per_case, spent) = (m.clone(), q.clone(), waiting.clone(), per_case.clone(), spent.clone());
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let base = globals_memory(&m);
            let mut ex = Exec::new(&m);
            if second { ex.second = Some(solver::Solver::new_cmd(&["cvc5".into(), "--incremental".into(), "--tlimit-per=30000".into()])); }
            let mut stride = 1u64;
            let mut twin_found = false;
            let mut tw: Vec<Finding> = vec![];
            let mut last_case = u32::MAX;
            loop {
                let job = {
                    let mut g = q.0.lock().unwrap();
                    waiting.fetch_add(1, Ordering::SeqCst);
                    loop {
                        if g.stop.is_some() { break None; }
                        if let Some(j) = g.q.pop_front() { g.busy += 1; break Some(j); }
                        if let Some(j) = g.later.pop_front() { g.busy += 1; break Some(Job { late: true, ..j }); }
                        if g.busy == 0 { break None; }
                        g = q.1.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                    }
                };
                waiting.fetch_sub(1, Ordering::SeqCst);
                let Some(job) = job else { q.1.notify_all(); break };
                if job.case != last_case || ex.ar.n.len() > 3_000_000 { ex.reset(); last_case = job.case; }
                ex.case = job.case;
                let mut tick = Instant::now();
                ex.prefix = job.decs;
                let before = ex.stats.paths;
                let hold = if job.twin == 1 { Some((std::mem::take(&mut ex.findings), std::mem::take(&mut ex.leaves), ex.stats.clone())) } else { None };
                match ex.start(&base, "sx_entry", &[job.case as u128, job.twin as u128], job.model) {
                    Ok(s) => ex.work.push(s),
                    Err(e) => ex.unknowns.push(format!("{:?}", e)),
                }
                while let Some(s) = ex.work.pop() {
                    ex.run(s);
                    if job.twin == 1 && !ex.findings.is_empty() { ex.work.clear(); break; }
                    if ex.leaves.len() > 6000 { stride *= 2; let l = std::mem::take(&mut ex.leaves); ex.leaves = l.into_iter().step_by(2).collect(); }
                    else if ex.stats.paths % stride != 0 { if let Some(l) = ex.leaves.last() { if l.end == "ok" { ex.leaves.pop(); } } }
                    if job.twin == 0 && ex.work.len() > 1 && waiting.load(Ordering::Relaxed) > 0 {
                        let s = ex.work.remove(0);
                        let mut g = q.0.lock().unwrap();
                        g.q.push_back(Job { case: job.case, twin: 0, model: s.model, decs: s.decs, late: job.late });
                        q.1.notify_one();
                    }
                    if ex.ar.n.len() > 12_000_000 {
                        // hand everything over and begin with an empty arena
                        let mut g = q.0.lock().unwrap();
                        for s in std::mem::take(&mut ex.work) { g.q.push_back(Job { case: job.case, twin: job.twin, model: s.model, decs: s.decs, late: job.late }); }
                        q.1.notify_all();
                        last_case = u32::MAX;
                    }
                    if tick.elapsed().as_millis() >= 50 && job.twin == 0 && !job.late {
                        let used = { let mut sp = spent.lock().unwrap(); let e = sp.entry(job.case).or_insert(0); *e += tick.elapsed().as_millis() as u64; *e };
                        tick = Instant::now();
                        if used > share {
                            let mut g = q.0.lock().unwrap();
                            if !g.q.is_empty() { for s in std::mem::take(&mut ex.work) { g.later.push_back(Job { case: job.case, twin: 0, model: s.model, decs: s.decs, late: true }); } break; }
                        }
                    }
                    if t0.elapsed().as_secs() > secs { let mut g = q.0.lock().unwrap(); g.out_of_time = true; if g.stop.is_none() { g.stop = Some("out of time".into()); } }
                    if job.twin == 0 && ex.findings.len() >= 4 { q.0.lock().unwrap().stop = Some("stopped after several violations".into()); break; }
                    if ex.unknowns.len() > 20 { q.0.lock().unwrap().stop = Some("too many errors".into()); break; }
                    if q.0.lock().unwrap().stop.is_some() { break; }
                }
                if !ex.work.is_empty() && job.twin == 0 { q.0.lock().unwrap().open.insert(job.case); }
                ex.work.clear();
                if let Some((f, l, st)) = hold { tw = std::mem::replace(&mut ex.findings, f); ex.leaves = l; twin_found |= !tw.is_empty(); let (sq,) = (st,); ex.stats = sq; }
                else { *per_case.lock().unwrap().entry(job.case).or_insert(0) += ex.stats.paths - before; }
                let mut g = q.0.lock().unwrap();
                g.busy -= 1;
                q.1.notify_all();
            }
            let cov = std::mem::take(&mut ex.covered);
            let sv = (ex.solver.queries, ex.solver.time, ex.solver.slowest);
            (ex.stats.clone(), std::mem::take(&mut ex.findings), std::mem::take(&mut ex.leaves), std::mem::take(&mut ex.unknowns), cov, sv, twin_found, tw)
        }).unwrap());
    }
    let mut st = Stats::default();
    let (mut finds, mut leaves, mut errs) = (vec![], vec![], vec![]);
    let mut cov: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); m.fns.len()];
    let (mut queries, mut stime, mut slow, mut twin, mut twf) = (0, Duration::ZERO, Duration::ZERO, false, vec![]);
    for h in hs {
        match h.join() {
            Ok((s, f, l, u, c, sv, t, tf)) => {
                st.paths += s.paths; st.assumed += s.assumed; st.forks += s.forks; st.decisions += s.decisions; st.obligations += s.obligations; st.checks_concrete += s.checks_concrete; st.insts += s.insts;
                st.max_vars = st.max_vars.max(s.max_vars); st.max_depth = st.max_depth.max(s.max_depth); st.cache_hits += s.cache_hits; st.model_hits += s.model_hits; st.solver_unsat += s.solver_unsat; st.rechecked += s.rechecked;
                finds.extend(f); leaves.extend(l); errs.extend(u); queries += sv.0; stime += sv.1; slow = slow.max(sv.2); twin |= t; twf.extend(tf);
                for (i, b) in c.into_iter().enumerate() { for (j, x) in b.into_iter().enumerate() { if x { cov[i].insert(j); } } }
            }
            Err(e) => errs.push(format!("a worker failed: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        }
    }
    let mut unfinished = BTreeSet::new();
    {
        let g = q.0.lock().unwrap();
        if g.out_of_time { unfinished.extend(g.open.iter().chain(g.q.iter().chain(g.later.iter()).map(|j| &j.case)).cloned()); }
        if let Some(s) = &g.stop { if s != "out of time" || unfinished.len() * 2 > cases.len() { errs.push(s.clone()); } }
    }
    let wall = t0.elapsed();
    // every leaf kept is run on the real code
    let mut replayed = 0;
    let mut mism = vec![];
    if !leaves.is_empty() {
        let chunks: Vec<&[Leaf]> = leaves.chunks((leaves.len() + threads - 1) / threads).collect();
        let rs: Vec<(u64, Vec<String>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = chunks.iter().enumerate().map(|(i, c)| { let f = format!("{}.batch.{}", out, i); sc.spawn(move || {
                let t: String = c.iter().map(|l| format!("{} {}\n", l.case, vals(&l.model))).collect();
                std::fs::write(&f, t).unwrap();
                let o = std::process::Command::new("timeout").args(["300", harness, "batch", &f]).output().unwrap();
                let _ = std::fs::remove_file(&f);
                let txt = String::from_utf8_lossy(&o.stdout).into_owned();
                let mut mm = vec![];
                let lines: Vec<&str> = txt.lines().collect();
                for (i, l) in c.iter().enumerate() {
                    let want = format!("{} {}", l.end, vals(&l.trace));
                    let got = lines.get(i).unwrap_or(&"nothing");
                    if *got != want { mm.push(format!("case {} values {}: encoding says {} but the code says {}", l.case, vals(&l.model), want, got)); }
                }
                (c.len() as u64, mm)
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (n, mm) in rs { replayed += n; mism.extend(mm); }
    }
    mism.truncate(5);
    for x in &mism { errs.push(format!("encoding and code differ: {}", x)); }
    let mut places_set = BTreeSet::new();
    let mut fns = BTreeSet::new();
    let mut memo = HashMap::new();
    for (i, bs) in cov.iter().enumerate() {
        if bs.is_empty() { continue; }
        if let Ok(f) = m.func(i) { for &b in bs { if let Some(bl) = f.blocks.get(b) { for &l in &bl.lines { if l > 0 { places(&m, &m.lines[l as usize], &mut places_set, &mut fns, &mut memo); } } } } }
    }
    let mut lines: BTreeMap<String, Vec<u32>> = BTreeMap::new();
    for (f, l) in places_set { lines.entry(f).or_default().push(l); }
    let names: HashMap<u32, String> = cases.iter().cloned().collect();
    let complete = errs.is_empty() && unfinished.is_empty();
    let mut o = String::new();
    o.push_str("{\n");
    let fj = |f: &Finding| format!("{{\"case\":{},\"name\":{},\"label\":{},\"kind\":{},\"model\":{}}}", f.case, js(names.get(&f.case).map(|s| s.as_str()).unwrap_or("")), js(&f.label), js(f.kind), js(&vals(&f.model)));
    let list = |v: &[Finding]| v.iter().map(|f| fj(f)).collect::<Vec<_>>().join(",");
    o.push_str(&format!("\"findings\":[{}],\n\"twin\":{},\"twin_findings\":[{}],\n", list(&finds), twin, list(&twf)));
    o.push_str(&format!("\"unfinished\":[{}],\n\"errors\":[{}],\n\"complete\":{},\n", unfinished.iter().map(|c| js(names.get(c).map(|s| s.as_str()).unwrap_or(""))).collect::<Vec<_>>().join(","), errs.iter().take(20).map(|e| js(e)).collect::<Vec<_>>().join(","), complete));
    o.push_str(&format!("\"cases\":[{}],\n", cases.iter().map(|c| format!("{{\"case\":{},\"name\":{},\"paths\":{}}}", c.0, js(&c.1), per_case.lock().unwrap().get(&c.0).copied().unwrap_or(0))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"paths\":{},\"assumed\":{},\"forks\":{},\"decisions\":{},\"obligations\":{},\"checks_concrete\":{},\"instructions\":{},\"max_vars\":{},\"max_depth\":{},\"cache_hits\":{},\"model_hits\":{},\"unsat\":{},\"rechecked\":{},\n", st.paths, st.assumed, st.forks, st.decisions, st.obligations, st.checks_concrete, st.insts, st.max_vars, st.max_depth, st.cache_hits, st.model_hits, st.solver_unsat, st.rechecked));
    o.push_str(&format!("\"queries\":{},\"solver_s\":{:.3},\"slowest_query_s\":{:.3},\"wall_s\":{:.3},\"native_replays\":{},\"solver\":{},\n", queries, stime.as_secs_f64(), slow.as_secs_f64(), wall.as_secs_f64(), replayed, js(&solver::solver_cmd().join(" "))));
    o.push_str(&format!("\"functions\":[{}],\n", fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"lines\":{{{}}},\n", lines.iter().map(|(f, l)| format!("{}:{:?}", js(f), l)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"samples\":[{}]\n}}\n", leaves.iter().step_by((leaves.len() / 6).max(1)).take(6).map(|l| js(&format!("{}: values {} -> {} {}", names.get(&l.case).map(|s| s.as_str()).unwrap_or(""), vals(&l.model), l.end, vals(&l.trace)))).collect::<Vec<_>>().join(",")));
    std::fs::write(out, o).unwrap();
    std::process::exit(if !finds.is_empty() { 1 } else if !complete { 2 } else { 0 });
}
