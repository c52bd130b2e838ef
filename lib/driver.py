import os, sys, json, time, subprocess, resource, glob, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
os.environ["CARGO_NET_OFFLINE"] = "true"
import props

MEM = 20 << 30

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run(cmd, timeout, cwd=HERE, env=None, lim=True):
    """(exit code or None on timeout, output)"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits if lim else None, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out.decode("utf8", "replace")

class Broken(Exception):
    """the check itself could not give an answer"""
class Died(Broken):
    """the engine was ended from outside"""

def known(prop):
    r = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS")):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                r.append((key.strip(), text.strip()))
    except FileNotFoundError: pass
    return r

def repo_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk("/repo/src")):
        for f in sorted(fs):
            h.update(os.path.join(d, f).encode()); h.update(open(os.path.join(d, f), "rb").read())
    h.update(open("/repo/Cargo.toml", "rb").read())
    return h.hexdigest()

def cargo_build(crate, extra=(), env=None, verb="build"):
    """builds one of the crates here against the current /repo, whatever the time stamps say"""
    man = os.path.join(HERE, crate, "Cargo.toml")
    if "/repo" in open(man).read():
        stamp = os.path.join(HERE, crate, "target", "repo.sha256")
        now = repo_hash()
        if os.path.exists(os.path.join(HERE, crate, "target")) and (not os.path.exists(stamp) or open(stamp).read() != now):
            run(["cargo", "clean", "--offline", "--quiet", "--manifest-path", man, "-p", "concordance", "-p", crate], 100, lim=False)
            run(["cargo", "clean", "--offline", "--quiet", "--release", "--manifest-path", man, "-p", "concordance", "-p", crate], 100, lim=False)
    else: stamp = None
    rc, out = run(["cargo", verb, "--offline", "--quiet", "--manifest-path", man, *extra], 800, lim=False, env=env)
    if rc != 0: raise Broken("building %s against /repo failed:\n%s" % (crate, out[-4000:]))
    if stamp: open(stamp, "w").write(now)

# A result of an engine: dict(coverage=..., violations=[dict(key, title, text, replay=[cmd...])])

def symx_native(prop, tier, case, model):
    exe = os.path.join(HERE, "symx/target/debug/symx")
    cmd = [exe, "native", prop, tier, str(case), model]
    rc, out = run(cmd, 30)
    if rc is None: return True, out + "\nRESULT: violated: does not terminate (stopped after 30 s)", cmd
    if rc == 3: return True, out, cmd
    if rc < 0 or rc > 100: return True, out + "\nRESULT: violated: the process ended with code %d" % rc, cmd
    return False, out, cmd

def symx(prop, tier, secs):
    try: r = symx_once(prop, tier, secs)
    except Died: r = symx_once(prop, tier, secs)
    if tier == "thorough" and not r["violations"]:
        # the quick bounds again, every query answered by a second solver
        try: r2 = symx_once(prop, "quick", secs, env=dict(SYMX_SOLVER="cvc5 --incremental --lang smt2"))
        except Broken as e:
            if "ran out of time" not in str(e): raise
            r["coverage"]["second_solver"] = "cvc5 ran out of time on the quick bounds: " + str(e)[-200:]
        else:
            c2 = r2["coverage"]
            r["coverage"]["second_solver"] = dict(solver="cvc5", bounds="quick", paths=c2["paths"], queries=c2["queries"], solver_s=c2["solver_s"], exhaustive=c2["exhaustive"]) if "paths" in c2 else "none"
            r["violations"] = r2["violations"]
    return r

def symx_once(prop, tier, secs, env={}):
    cargo_build("symx")
    exe = os.path.join(HERE, "symx/target/debug/symx")
    work = os.path.join(HERE, "build"); os.makedirs(work, exist_ok=True)
    rep = os.path.join(work, "symx-%s.json" % prop)
    for f in glob.glob(rep + "*"): os.remove(f)
    rc, out = run([exe, "run", prop, tier, rep, str(secs)], secs * 2 + 300, env=dict(env, VERIF_KNOWN="\n".join(k for k, _ in known(prop))))
    cands, j = [], None
    if rc in (0, 1, 2) and os.path.exists(rep):
        j = json.load(open(rep))
        for f in j["findings"]:
            m = f["model"]
            if f["kind"] == "hang": m = traced(exe, prop, tier, f["case"], f["decisions"], m)
            cands.append((f["case"], m, f["label"], f["describe"]))
    else:
        # the process died: find the path that kills it
        for c in sorted(glob.glob(rep + ".crumbs.*")):
            try: case, bits = open(c).readline().split()
            except ValueError: continue
            cands.append((int(case), traced(exe, prop, tier, int(case), bits, ""), "the process ended with code %s" % rc, ""))
        if not cands: raise Died("symx ended with code %s\n%s" % (rc, out[-3000:]))
    viol, unconfirmed = [], []
    for case, m, label, desc in cands:
        ok, text, cmd = symx_native(prop, tier, case, m)
        if ok: viol.append(dict(key="%s|%s" % (desc, label), title=label, text="%s\n%s\n\n%s" % (desc, label, text), replay=cmd))
        else: unconfirmed.append("%s (case %s, values %s): %s" % (label, case, m, text[-600:]))
    for f in glob.glob(rep + ".crumbs*"): os.remove(f)
    if not viol:
        if unconfirmed: raise (Died if j is None else Broken)("the solver's counterexample did not replay on the real code: " + "; ".join(unconfirmed)[:3000])
        if j is None or j["errors"] or not (j["complete"] or j["unfinished"]): raise Broken("symx: %s" % (j and j["errors"]))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    if j:
        cov = dict(states=j["leaves"], transitions=j["decisions"], traces_validated_against_impl=j["native_replays"],
            samples=j["samples"], engine="symx", families=j["cases"], family_examples=j["case_examples"], paths=j["paths"], branch_points=j["forks"], obligations=j["obligations"],
            pruned_branches_rechecked=j["pruned_branches_rechecked"], queries=j["queries"], solver=j["solver"], solver_s=round(j["solver_s"], 3), engine_s=round(j["wall_s"], 3),
            deepest_path=j["max_depth"], most_symbolic_values=j["max_vars"], exhaustive=j["complete"], wrong_specification_refuted=j["wrong_twin"])
        if j["unfinished"]: cov["families_not_finished_in_time"] = j["unfinished"]
        if j["known"]: cov["known_findings_met"] = j["known"]
    return dict(coverage=cov, violations=viol)

def traced(exe, prop, tier, case, bits, default):
    f = os.path.join(HERE, "build", "trace-%s" % prop)
    if os.path.exists(f): os.remove(f)
    run([exe, "trace", prop, tier, str(case), bits, f], 15)
    try: return open(f).read().strip()
    except FileNotFoundError: return default

IR = ["--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
def build_ir(profile):
    """the harness and the library as one LLVM module, and as a program"""
    d = os.path.join(HERE, "llh/target", profile)
    for again in (False, True):
        cargo_build("llh", [*(["--release"] if profile == "release" else []), "--", *IR], verb="rustc")
        l = glob.glob(os.path.join(d, "deps/llh-*.ll"))
        if len(l) == 1: return l[0], os.path.join(d, "llh")
        run(["cargo", "clean", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, "llh/Cargo.toml"), *(["--release"] if profile == "release" else []), "-p", "llh"], 100, lim=False)
        for f in l: os.remove(f) if os.path.exists(f) else None
    raise Broken("no IR for the harness")

def ll_native(exe, case, model):
    cmd = [exe, "native", str(case), model]
    rc, out = run(["prlimit", "--as=4294967296", *cmd], 20)
    if rc is None: return True, out + "\nRESULT: violated: does not terminate (stopped after 20 s)", cmd
    if rc == 3: return True, out, cmd
    if rc < 0 or rc > 100: return True, out + "\nRESULT: violated: the process ended with code %d" % rc, cmd
    return False, out, cmd

def llsym_on(prop, tier, secs, profile, env=None):
    ir, exe = build_ir(profile)
    work = os.path.join(HERE, "build"); os.makedirs(work, exist_ok=True)
    rep = os.path.join(work, "llsym-%s-%s.json" % (prop, profile))
    if os.path.exists(rep): os.remove(rep)
    rc, out = run([os.path.join(HERE, "llsym/target/debug/llsym"), "run", ir, exe, prop, tier, rep, str(secs)], secs + 300, env=env)
    if rc not in (0, 1, 2) or not os.path.exists(rep): raise Broken("llsym ended with code %s\n%s" % (rc, out[-3000:]))
    j = json.load(open(rep))
    viol, unconfirmed, hangs = [], [], 0
    for f in j["findings"]:
        if f["kind"] == "hang":
            hangs += 1
            if hangs > 3: continue
        ok, text, cmd = ll_native(exe, f["case"], f["model"])
        where = "%s, values %s (%s build)" % (f["name"], f["model"], profile)
        if ok: viol.append(dict(key="%s|%s" % (f["name"], f["label"]), title=f["label"], text="%s\n%s\n\n%s" % (where, f["label"], text), replay=cmd, build_ir=profile))
        else: unconfirmed.append("%s (%s): %s" % (f["label"], where, text[-600:]))
    if not viol:
        if unconfirmed: raise Broken("the solver's counterexample did not replay on the real code: " + "; ".join(unconfirmed)[:3000])
        if j["errors"] or not (j["complete"] or j["unfinished"]): raise Broken("llsym: %s" % "; ".join(j["errors"])[:3000])
        if not j["twin"]: raise Broken("llsym: the wrong specification was not refuted")
    cov = dict(states=j["paths"], transitions=j["decisions"], traces_validated_against_impl=j["native_replays"], samples=j["samples"], engine="llsym",
        builds=[profile], families=len(j["cases"]), family_examples=[c["name"] for c in j["cases"][::max(1, len(j["cases"]) // 8)]], paths=j["paths"], branch_points=j["forks"], obligations=j["obligations"], checks_decided_by_evaluation=j["checks_concrete"],
        instructions=j["instructions"], queries=j["queries"], queries_unsat=j["unsat"], answers_rechecked_by_cvc5=j["rechecked"], solver=j["solver"], solver_s=round(j["solver_s"], 3), slowest_query_s=j["slowest_query_s"], engine_s=round(j["wall_s"], 3),
        deepest_path=j["max_depth"], most_symbolic_values=j["max_vars"], exhaustive=j["complete"], wrong_specification_refuted=j["twin"], functions_executed=j["functions"], source_lines_executed={k: len(v) for k, v in j["lines"].items()})
    if j["unfinished"]: cov["families_not_finished_in_time"] = j["unfinished"]
    return dict(coverage=cov, violations=viol)

def llsym(prop, tier, secs):
    cargo_build("llsym")
    r = llsym_on(prop, tier, secs, "debug")
    if tier == "thorough" and not r["violations"]:
        # the quick bounds again on optimised code without overflow checks, with every 'unsat' confirmed by a second solver
        r2 = llsym_on(prop, "quick", secs, "release", env=dict(LLSYM_SECOND="1"))
        r = dict(coverage=merge([r["coverage"], r2["coverage"]]), violations=r2["violations"])
    return r

def merge(covs):
    cov = {}
    for c in covs:
        for k, v in c.items():
            if isinstance(v, bool): cov[k] = cov.get(k, True) and v
            elif k.startswith(("deepest", "most", "slowest")) and k in cov: cov[k] = max(cov[k], v)
            elif isinstance(v, (int, float)) and k in cov: cov[k] = round(cov[k] + v, 3)
            elif isinstance(v, list) and k in cov: cov[k] = cov[k] + [x for x in v if x not in cov[k]]
            elif isinstance(v, dict) and k in cov: cov[k] = {**cov[k], **v}
            elif k in cov and isinstance(v, str): cov[k] = cov[k] if v in cov[k] else cov[k] + "; " + v
            else: cov[k] = v
    return cov

def main(a):
    if len(a) < 1: print(__doc__ or "usage: check PROPERTY [quick|thorough]"); return 2
    if a[0] == "replay":
        r = json.load(open(a[1]))
        print(r["text"]); print("\nreplaying: " + " ".join(r["replay"]))
        if "build_ir" in r: build_ir(r["build_ir"])
        else: cargo_build("symx")
        rc, out = run(r["replay"], 60, env=r.get("env"))
        print(out); print("exit", rc)
        return 1 if rc != 0 else 0
    if a[0] == "build":
        for c in ("symx", "llsym"): cargo_build(c)
        build_ir("debug")
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    for f in glob.glob(os.path.join(EVID, prop + "-violation-*")): os.remove(f)
    covs, viol, err = [], [], None
    try:
        for eng in p["engines"]:
            r = ENGINES[eng](prop, tier, p["secs"][tier] if "secs" in p else dict(quick=330, thorough=900)[tier])
            covs.append(r["coverage"]); viol += r["violations"]
    except Broken as e:
        err = str(e)
    cov = merge(covs)
    kn = known(prop)
    new = [v for v in viol if not any(k in v["key"] for k, _ in kn)]
    cov["functions_encoded"] = p["functions"]
    cov["bounds"] = p["bounds"][tier]
    cov["outside_the_bounds"] = p["outside"]
    if not cov.get("samples"): cov["samples"] = [v["text"][:1000] for v in viol] or [err or "none"]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=p["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(new))
    for k in ("states", "transitions", "traces_validated_against_impl"): cov.setdefault(k, 0)
    if err: ev["error"] = err[:4000]
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for k, t in kn:
        if k in cov.get("known_findings_met", {}) or any(k in v["key"] for v in viol): print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for i, v in enumerate(new):
        f = os.path.join(EVID, "%s-violation-%d.json" % (prop, i))
        json.dump(v, open(f, "w"), indent=1)
        if i < 3: print(v["text"])
        print("VIOLATION property=%s replay=%s" % (prop, f))
    if new: return 1
    if err:
        print("ERROR in the check of %s: %s" % (prop, err)); return 2
    if cov.get("families_not_finished_in_time"): print("NOTE: time ran out inside %d families; they are named in the evidence and outside the explored bounds" % len(cov["families_not_finished_in_time"]))
    print("%s holds on everything explored (%s): %s paths, %s decisions, %s solver queries, %.1f s" % (prop, tier, cov.get("states"), cov.get("transitions"), cov.get("queries"), time.time() - t0))
    return 0

ENGINES = dict(symx=symx, llsym=llsym)
