//! Exhaustive exploration of all paths of all cases of a harness, with one solver verdict per leaf.
use crate::engine::*;
use crate::expr::*;
use crate::solver::*;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

pub trait Harness: Send + Sync + 'static {
    fn ncases(&self) -> usize;
    fn describe(&self, case: usize) -> String;
    /// the keys HashMap and HashSet get while this case runs
    fn hash_seed(&self, _case: usize) -> u64 { 1 }
    fn run<W: World>(&self, case: usize, w: &mut W);
}

thread_local! { pub static HASH_SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(1) }; }

/// Stands in for the system call while paths run, so that hash orders are the same on every re-execution
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = HASH_SEED.try_with(|s| s.get()).unwrap_or(1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for i in 0..len {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        unsafe { *buf.add(i) = (x >> 24) as u8; }
    }
    len as isize
}

#[derive(Clone)]
struct Job { case: usize, prefix: Vec<(Atom, bool)>, plain: bool }

#[derive(Clone, Debug)]
pub struct Finding { pub case: usize, pub label: String, pub model: Vec<i32>, pub names: Vec<String>, pub kind: String, pub decisions: String }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub leaves: u64, pub infeasible: u64, pub forks: u64, pub decisions: u64, pub obligations: u64, pub implied: u64,
    pub queries: u64, pub solver_s: f64, pub native: u64, pub cases_done: usize, pub max_depth: usize, pub max_vars: usize,
    pub samples: Vec<String>,
    pub by_case: std::collections::BTreeMap<usize, (u64, f64)>,
}

pub struct Report { pub stats: Stats, pub findings: Vec<Finding>, pub errors: Vec<String>, pub complete: bool, pub wall: f64, pub cases: usize, pub unfinished: Vec<usize> }

pub struct Opts { pub threads: usize, pub deadline: Duration, pub native_every: u64, pub max_ticks: u64, pub path_timeout: Duration, pub crumbs: Option<String> }

struct SendRun(Vec<Out>, Vec<Vec<(Atom, bool)>>, bool, u64, Vec<String>);
unsafe impl Send for SendRun {} // formulas (Rc) are moved to the waiting thread as a whole, never shared

const STACK: usize = 16 << 20;
const ROOM: usize = 400;
const BATCH: usize = 48;
/// every leaf's witness is run natively up to this many leaves, then every sixteenth and the first of each job
const NATIVE_ALL: u64 = 20000;

struct Run { outs: Vec<Out>, leftover: Vec<Vec<(Atom, bool)>>, diverged: bool, decisions: u64, names: Vec<String> }

/// Waits for a thread that has answered; one that has not is left alone.  (Never detached: glibc's pthread_detach races with the end of the thread.)
fn reap(th: std::thread::JoinHandle<()>, answered: bool) { if answered { let _ = th.join(); } else { std::mem::forget(th); } }
/// Follows the decisions of a job and, from its last stage on, every branch (up to ROOM); Err(decisions) when it does not come back
fn run_path<H: Harness>(h: &Arc<H>, job: &Job, opts: &Opts, crumb: Option<Arc<std::fs::File>>) -> Result<Run, Vec<(Atom, bool)>> {
    let h = h.clone();
    let (case, max_ticks, plain, prefix) = (job.case, opts.max_ticks, job.plain, job.prefix.clone());
    let progress: Progress = Arc::new(Mutex::new(job.prefix.clone()));
    let pr = progress.clone();
    let (tx, rx) = mpsc::channel();
    let th = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        HASH_SEED.with(|s| s.set(h.hash_seed(case)));
        let mut path = Box::new(Path::new(prefix.iter().map(|x| x.1).collect(), max_ticks));
        path.expect = prefix;
        path.plain = plain;
        path.room = ROOM;
        path.progress = Some(pr);
        path.crumb = crumb.map(|f| -> Box<dyn Fn(&[(Atom, bool)])> { Box::new(move |p| write_crumb(&f, case, p)) });
        CUR.with(|c| c.set(&mut *path as *mut Path));
        let r = catch_unwind(AssertUnwindSafe(|| h.run(case, &mut SymWorld)));
        CUR.with(|c| c.set(std::ptr::null_mut()));
        let end = match r { Ok(()) => End::Done, Err(e) => end_of(e) };
        if path.outs.is_empty() { let o = path.take_out(end, false); path.outs.push(o); }
        let p = *path;
        let _ = tx.send(SendRun(p.outs, p.leftover, p.diverged, p.decisions, p.names));
    }).expect("thread");
    let r = rx.recv_timeout(opts.path_timeout);
    reap(th, r.is_ok());
    match r {
        Ok(r) => Ok(Run { outs: r.0, leftover: r.1, diverged: r.2, decisions: r.3, names: r.4 }),
        Err(_) => { let p = progress.lock().unwrap().clone(); Err(p) }
    }
}
fn write_crumb(f: &std::fs::File, case: usize, p: &[(Atom, bool)]) { use std::os::unix::fs::FileExt; let _ = f.write_at(format!("{} {}\n", case, bits(p)).as_bytes(), 0); }

/// Runs a case on concrete values: (labels of failed requirements, how it ended, observation hash, notes)
pub fn run_native<H: Harness>(h: &Arc<H>, case: usize, model: Vec<i32>, timeout: Duration) -> Option<(Vec<String>, End, u64, Vec<String>)> {
    let h = h.clone();
    let (tx, rx) = mpsc::channel();
    let th = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        HASH_SEED.with(|s| s.set(h.hash_seed(case)));
        let mut w = NatWorld::new(model);
        let r = catch_unwind(AssertUnwindSafe(|| h.run(case, &mut w)));
        let end = match r { Ok(()) => End::Done, Err(e) => end_of(e) };
        let _ = tx.send((w.failed, end, w.observed, w.notes));
    }).expect("thread");
    let r = rx.recv_timeout(timeout).ok();
    reap(th, r.is_some());
    r
}

struct Leaf { case: usize, pc: B, bad: B, require: Vec<(String, B)>, implied: Vec<Atom>, nv: usize, names: Arc<Vec<String>> }

pub fn bits(p: &[(Atom, bool)]) -> String { if p.is_empty() { "-".into() } else { p.iter().map(|x| if x.1 { '1' } else { '0' }).collect() } }

/// Follows one path, writing a model of the decisions made so far to a file at every fork
pub fn trace_path<H: Harness>(h: &Arc<H>, case: usize, replay: Vec<bool>, file: String) {
    let h = h.clone();
    let t = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        HASH_SEED.with(|s| s.set(h.hash_seed(case)));
        TRACE.with(|t| *t.borrow_mut() = Some(file));
        let mut path = Box::new(Path::new(replay, u64::MAX));
        CUR.with(|c| c.set(&mut *path as *mut Path));
        let _ = catch_unwind(AssertUnwindSafe(|| h.run(case, &mut SymWorld)));
        with(|p| p.trace());
    }).expect("thread");
    let _ = t.join();
}

/// where the time goes, for whoever works on the families
fn profile() -> bool { static P: std::sync::OnceLock<bool> = std::sync::OnceLock::new(); *P.get_or_init(|| std::env::var("SYMX_PROFILE").is_ok()) }
pub fn explore<H: Harness>(h: Arc<H>, opts: Opts) -> Report {
    let opts = Arc::new(opts);
    let t0 = Instant::now();
    let ncases = h.ncases();
    let queue: Arc<Mutex<VecDeque<Job>>> = Arc::new(Mutex::new((0..ncases).map(|c| Job { case: c, prefix: vec![], plain: false }).collect()));
    let idle = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let out_of_time = Arc::new(AtomicBool::new(false));
    let stats = Arc::new(Mutex::new(Stats::default()));
    let findings: Arc<Mutex<Vec<Finding>>> = Arc::new(Mutex::new(vec![]));
    let errors: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let leafno = Arc::new(AtomicU64::new(0));
    // families that take far more than their share wait until the others are through; what is left at the end is reported
    let share = (opts.deadline.as_millis() as u64 * opts.threads as u64 / 12).max(1000);
    let spent: Arc<Vec<AtomicU64>> = Arc::new((0..ncases).map(|_| AtomicU64::new(0)).collect());
    let later: Arc<Mutex<Vec<Job>>> = Arc::new(Mutex::new(vec![]));
    let open: Arc<Mutex<std::collections::BTreeSet<usize>>> = Arc::new(Mutex::new(Default::default()));
    let mut handles = vec![];
    for wno in 0..opts.threads {
        let (h, opts, queue, idle, stop, oot, stats, findings, errors, leafno, spent, later, open) =
            (h.clone(), opts.clone(), queue.clone(), idle.clone(), stop.clone(), out_of_time.clone(), stats.clone(), findings.clone(), errors.clone(), leafno.clone(), spent.clone(), later.clone(), open.clone());
        handles.push(std::thread::spawn(move || {
            let mut solver = Solver::new(MAXV);
            let mut st = Stats::default();
            let mut local: Vec<Job> = vec![];
            let crumb = opts.crumbs.as_ref().and_then(|c| std::fs::File::create(format!("{}.{}", c, wno)).ok()).map(Arc::new);
            let mut batch: Vec<Leaf> = vec![];
            let err = |s: String| { let mut e = errors.lock().unwrap(); if e.len() < 20 { e.push(s) } stop.store(true, SeqCst); };
            let flush = |batch: &mut Vec<Leaf>, solver: &mut Solver, st: &mut Stats| {
                if batch.is_empty() { return; }
                let all = B::any(batch.iter().map(|l| l.pc.and(&l.bad)));
                let (a, _) = if all.is() == Some(false) { (Ans::Unsat, vec![]) } else { solver.check(&all, None) };
                if a == Ans::Sat {
                    for l in batch.iter() {
                        let (a, m) = solver.check(&l.pc.and(&l.bad), Some(l.nv));
                        if a == Ans::Sat {
                            if let Some(im) = l.implied.iter().find(|im| !im.eval(&m)) { err(format!("engine: pruned branch was feasible: {:?} case {}", im, h.describe(l.case))); continue; }
                            let label = l.require.iter().find(|(_, b)| !b.eval(&m)).map(|(s, _)| s.clone()).unwrap_or("?".into());
                            let mut f = findings.lock().unwrap();
                            if f.len() < 8 { f.push(Finding { case: l.case, label, model: m, names: l.names.to_vec(), kind: "assertion".into(), decisions: String::new() }); }
                            stop.store(true, SeqCst);
                        }
                    }
                }
                for l in batch.iter() { st.obligations += 1 + l.require.len() as u64; st.implied += l.implied.len() as u64; }
                batch.clear();
            };
            'outer: loop {
                if stop.load(SeqCst) { break; }
                if t0.elapsed() > opts.deadline { oot.store(true, SeqCst); stop.store(true, SeqCst); break; }
                let mut waited = false;
                let job = match local.pop() {
                    Some(j) => j,
                    None => {
                        idle.fetch_add(1, SeqCst);
                        loop {
                            if stop.load(SeqCst) { break 'outer; }
                            if let Some(j) = queue.lock().unwrap().pop_front() { idle.fetch_sub(1, SeqCst); break j; }
                            if let Some(j) = later.lock().unwrap().pop() { idle.fetch_sub(1, SeqCst); waited = true; break j; }
                            if idle.load(SeqCst) == opts.threads { break 'outer; }
                            std::thread::sleep(Duration::from_micros(200));
                        }
                    }
                };
                if !waited && spent[job.case].load(SeqCst) > share { later.lock().unwrap().push(job); continue; }
                if let Some(f) = &crumb { write_crumb(f, job.case, &job.prefix); }
                let hang = |decisions: &[(Atom, bool)], model: Vec<i32>, names: Vec<String>| {
                    findings.lock().unwrap().push(Finding { case: job.case, label: "terminates".into(), model, names, kind: "hang".into(), decisions: bits(decisions) });
                    stop.store(true, SeqCst);
                };
                let tj = Instant::now();
                let run = match run_path(&h, &job, &opts, crumb.clone()) {
                    Ok(x) => x,
                    Err(prefix) => {
                        // once more, alone, with a lot of time: a loaded machine is not a hang
                        let once = Job { case: job.case, prefix: prefix.clone(), plain: true };
                        let slow = Opts { threads: 1, deadline: opts.deadline, native_every: 1, max_ticks: opts.max_ticks, path_timeout: opts.path_timeout * 3, crumbs: None };
                        if run_path(&h, &once, &slow, None).is_ok() { local.push(Job { plain: true, ..job }); continue; }
                        let mut d = Dbm::new();
                        let nv = prefix.iter().flat_map(|(a, _)| [a.x, a.y]).filter(|v| *v != NOVAR).max().map(|v| v as usize + 1).unwrap_or(0).max(24);
                        for _ in 0..nv { d.add_var(); }
                        for (a, b) in &prefix { d.assert(if *b { *a } else { a.neg() }); }
                        hang(&prefix, d.model(), vec![]);
                        break;
                    }
                };
                let spend = |t: Instant| { spent[job.case].fetch_add(t.elapsed().as_millis() as u64, SeqCst); };
                if profile() { let e = st.by_case.entry(job.case).or_insert((0, 0.0)); e.0 += run.outs.len() as u64; e.1 += tj.elapsed().as_secs_f64(); }
                let depth = job.prefix.len();
                let parts = run.diverged || run.outs.iter().any(|o| !o.stage && (o.forks.len() < depth || o.forks[..depth] != job.prefix[..]));
                if parts {
                    if !job.plain { local.push(Job { plain: true, ..job }); continue; }
                    err(format!("engine: re-execution diverged (case {}) from {:?}", h.describe(job.case), job.prefix));
                    break;
                }
                st.paths += run.outs.len() as u64;
                st.decisions += run.decisions;
                let staged = run.outs[0].stage;
                // branches not taken yet: those of the first stage (or of the whole run), and those given back
                let first = &run.outs[0];
                for d in depth..first.forks.len() {
                    let mut p: Vec<(Atom, bool)> = first.forks[..d].to_vec();
                    p.push((first.forks[d].0, !first.forks[d].1));
                    local.push(Job { case: job.case, prefix: p, plain: job.plain });
                    st.forks += 1;
                }
                if staged { st.forks += run.outs.len() as u64 + run.leftover.len() as u64; }
                for p in run.leftover { local.push(Job { case: job.case, prefix: p, plain: false }); }
                if local.len() > 1 && idle.load(SeqCst) > 0 {
                    let n = (local.len() / 2).min(8);
                    let mut q = queue.lock().unwrap();
                    for j in local.drain(..n) { q.push_back(j); }
                }
                st.max_vars = st.max_vars.max(run.names.len());
                let names = Arc::new(run.names);
                for (no, out) in run.outs.into_iter().enumerate() {
                    if out.stage && depth > out.forks.len() { continue; } // seen when the stage was first reached
                    st.max_depth = st.max_depth.max(out.forks.len());
                    let mut require = out.require;
                    match &out.end {
                        End::Infeasible => { st.infeasible += 1; continue; }
                        End::Panic(s) => require.push((format!("must not panic: {}", s), B::f())),
                        End::Budget => { hang(&out.forks, out.model, names.to_vec()); continue; }
                        End::Done => {}
                    }
                    let model = out.model;
                    if !out.pc.iter().all(|a| a.eval(&model)) { err("engine: model does not satisfy its path condition".into()); break 'outer; }
                    if !out.stage {
                        st.leaves += 1;
                        let n = leafno.fetch_add(1, SeqCst);
                        if n % opts.native_every == 0 && (n < NATIVE_ALL || no <= 1 || n % 16 == 0) {
                            match run_native(&h, job.case, model.clone(), opts.path_timeout * 3) {
                                None => { hang(&out.forks, model, names.to_vec()); break 'outer; }
                                Some((failed, nend, obs, _)) => {
                                    st.native += 1;
                                    let same = obs == out.observed && match (&out.end, &nend) { (End::Done, End::Done) => true, (End::Panic(_), End::Panic(_)) => true, _ => false };
                                    if !same && failed.is_empty() && matches!(nend, End::Done) { err(format!("engine: symbolic and native runs disagree (case {} model {:?}): {:?} {:?} / {:?} failed {:?}", h.describe(job.case), model, out.end, out.observed, nend, failed)); break 'outer; }
                                    if !same {
                                        // the same code on u8 does something else, and it is wrong
                                        let label = failed.first().cloned().unwrap_or(format!("must not panic: {:?}", nend));
                                        findings.lock().unwrap().push(Finding { case: job.case, label, model: model.clone(), names: names.to_vec(), kind: "native".into(), decisions: bits(&out.forks) });
                                        stop.store(true, SeqCst);
                                        break 'outer;
                                    }
                                }
                            }
                            if st.samples.len() < 2 && out.pc.len() > 3 {
                                st.samples.push(format!("case {}: path condition {}; witness {:?}", h.describe(job.case), out.pc.iter().map(|a| a.smt()).collect::<Vec<_>>().join(" "), names.iter().cloned().zip(model.iter().cloned()).collect::<Vec<_>>()));
                            }
                        }
                    }
                    let bad = B::any(require.iter().map(|(_, b)| b.not()).chain(out.implied.iter().map(|a| B::atom(a.neg()))));
                    let pc = B::all(out.pc.iter().map(|a| B::atom(*a)));
                    batch.push(Leaf { case: job.case, pc, bad, require, implied: out.implied, nv: out.nv, names: names.clone() });
                    if batch.len() >= BATCH { flush(&mut batch, &mut solver, &mut st); }
                }
                spend(tj);
            }
            open.lock().unwrap().extend(local.iter().map(|j| j.case));
            flush(&mut batch, &mut solver, &mut st);
            st.queries = solver.queries;
            st.solver_s = solver.time.as_secs_f64();
            let mut s = stats.lock().unwrap();
            s.paths += st.paths; s.leaves += st.leaves; s.infeasible += st.infeasible; s.forks += st.forks; s.decisions += st.decisions;
            s.obligations += st.obligations; s.implied += st.implied; s.queries += st.queries; s.solver_s += st.solver_s; s.native += st.native;
            for (c, v) in st.by_case { let e = s.by_case.entry(c).or_insert((0, 0.0)); e.0 += v.0; e.1 += v.1; }
            s.max_depth = s.max_depth.max(st.max_depth); s.max_vars = s.max_vars.max(st.max_vars);
            let room = 6usize.saturating_sub(s.samples.len());
            s.samples.extend(st.samples.into_iter().take(room));
        }));
    }
    for hd in handles { if hd.join().is_err() { errors.lock().unwrap().push("engine: worker thread died".into()); } }
    let mut unfinished = open.lock().unwrap().clone();
    unfinished.extend(queue.lock().unwrap().iter().map(|j| j.case));
    unfinished.extend(later.lock().unwrap().iter().map(|j| j.case));
    // the time may have run out just as the last of them was done
    let complete = (!stop.load(SeqCst) || out_of_time.load(SeqCst)) && unfinished.is_empty();
    let stats = std::mem::take(&mut *stats.lock().unwrap());
    if profile() { let mut v: Vec<_> = stats.by_case.iter().collect(); v.sort_by(|a, b| b.1.1.partial_cmp(&a.1.1).unwrap()); for (c, (n, t)) in v.into_iter().take(25) { eprintln!("{:8.2} s {:8} paths  {}", t, n, h.describe(*c)); } }
    let findings = findings.lock().unwrap().clone();
    let errors = errors.lock().unwrap().clone();
    let oot = out_of_time.load(SeqCst);
    let mut r = Report { stats, findings, errors, complete, wall: t0.elapsed().as_secs_f64(), cases: ncases, unfinished: unfinished.into_iter().collect() };
    // a little left over is a smaller bound; a lot is no answer
    if oot && r.findings.is_empty() && r.errors.is_empty() && r.unfinished.len() * 10 > ncases { r.errors.push(format!("engine: ran out of time with {} of {} families unfinished", r.unfinished.len(), ncases)); }
    r
}
