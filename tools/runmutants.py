#!/usr/bin/env python3
"""Small mutations of /repo's source that compile and pass its tests, and whether some check notices: runmutants.py OUT.json [file ...]
Each worker has its own copies of /repo and /verif in a private mount namespace."""
import json, os, re, shutil, subprocess, sys, time, threading, queue, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]; files = sys.argv[2:]
JOBS = int(os.environ.get("JOBS", "3"))
CHECKS = {"countable": "C08", "symbol_range": "C07 C05 C09 C20", "overlapping_symbols": "C06 C05 C09", "ndfa": "C04 C03 C09 C01", "dfa_compiler": "C21 C03 C02 C01 C19", "dfa_builder": "C21", "symbol_range_dfa": "C10 C20 C22 C19",
          "matches": "C01 C22 C19", "prepare": "C13 C19", "pattern_matcher": "C19", "regular_pattern": "C01 C18", "split_reader": "C12 C23 C24", "state_machine": "C04 C03 C19", "symbol_reader": "C17 C24", "tagged_stream": "C15 C16",
          "tape": "C11 C23 C13 C22", "tokenizer": "C13 C14 C22 C23 C02"}
OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\+1\b", ["+2", ""]), (r"-1\b", ["", "-2"]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
       (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["3"]), (r"\.\.", ["..="]), (r"\.lowest\b", [".highest"]), (r"\.highest\b", [".lowest"]), (r"if (?!let)(.*) \{", [r"if !(\1) {"]), (r"\.next\(\)", [".prev()"]), (r"\.prev\(\)", [".next()"]),
       (r"\.is_none\(\)", [".is_some()"]), (r"\.is_some\(\)", [".is_none()"]), (r"Ordering::Less|\bLess\b", ["Greater"]), (r"\bfirst_symbol_index\b", ["last_symbol_index"]), (r"\bread_index\b", ["first_symbol_index"]), (r"\bstart\b", ["end"]), (r"\bend\b", ["start"])]
def mutants(f):
    src = open("/repo/src/%s.rs" % f).read()
    head = src.split("#[cfg(test)]")[0]
    res, comment = [], False
    for n, l in enumerate(head.split("\n")):
        t = l.strip()
        if t.startswith("/*"): comment = True
        if comment:
            if "*/" in t: comment = False
            continue
        if not t or t.startswith(("//", "use ", "pub use", "#", "impl", "pub struct", "pub trait", "mod ")) or re.match(r"(pub )?fn ", t): continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    new = code[:m.start()] + re.sub(pat, r, m.group(0)) + code[m.end():]
                    if new != code: res.append((f, n, new))
        if t.endswith(";") and not t.startswith(("let ", "return", "type ", "}")) and "->" not in t: res.append((f, n, ""))
        if t in ("else {", "} else {"): pass
    return res
todo = [m for f in (files or sorted(CHECKS)) for m in mutants(f)]
random.Random(7).shuffle(todo)
res = json.load(open(out)) if os.path.exists(out) else {}
q = queue.Queue()
for m in todo:
    if "%s:%d:%s" % m not in res: q.put(m)
print(len(todo), "mutants", flush=True)
lock = threading.Lock()
END = time.time() + float(os.environ.get("SECS", "3000"))
def worker(i):
    d = "/tmp/mut%d" % i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run("mkdir -p {0}/verif && cd {1} && git archive HEAD | tar xf - -C {0}/verif && for c in symx llh llsym; do cp -a $c/target {0}/verif/$c/; done".format(d, V), shell=True, check=True)
    ns = lambda c, t: subprocess.run(["unshare", "-m", "--propagation", "private", "bash", "-c", "mount --bind %s/repo /repo; mount --bind %s/verif /verif; %s" % (d, d, c)], capture_output=True, text=True, timeout=t)
    while time.time() < END:
        try: f, n, new = q.get_nowait()
        except queue.Empty: break
        p = "%s/repo/src/%s.rs" % (d, f); orig = open("/repo/src/%s.rs" % f).read()
        lines = orig.split("\n"); old = lines[n]; lines[n] = new
        open(p, "w").write("\n".join(lines))
        r = dict(old=old.strip(), new=new.strip())
        try:
            b = ns("cd /repo && CARGO_NET_OFFLINE=true timeout 120 cargo test --offline --lib 2>&1 | tail -5", 200).stdout
            if "test result: ok. 111" not in b: r["verdict"] = "killed by tests"
            else:
                r["verdict"] = "SURVIVED"; r["runs"] = []
                for c in CHECKS[f].split():
                    t0 = time.time(); x = ns("cd /verif && ./check %s quick" % c, 1200)
                    r["runs"].append((c, x.returncode, round(time.time() - t0)))
                    if x.returncode == 1 and "VIOLATION property=" + c in x.stdout: r["verdict"] = "caught by " + c; break
                    if x.returncode == 2: r["err"] = (x.stdout + x.stderr)[-600:]
        except subprocess.TimeoutExpired: r["verdict"] = "timeout"
        open(p, "w").write(orig)
        with lock:
            res["%s:%d:%s" % (f, n, new)] = r
            if r["verdict"] != "killed by tests": print(r["verdict"], "%s:%d" % (f, n + 1), "|", r["old"], "|", r["new"], "|", r.get("runs"), r.get("err", "")[-200:].replace("\n", " "), flush=True)
            json.dump(res, open(out, "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(JOBS)]
for t in ts: t.start()
for t in ts: t.join()
from collections import Counter
print(Counter(r["verdict"].split(" by C")[0] for r in res.values()), q.qsize(), "left")
