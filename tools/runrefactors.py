#!/usr/bin/env python3
"""Runs the checks on refactored copies of /repo, in private mount namespaces: runrefactors.py OUT.json [id[:check] ...]"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import refactor_defs
out = sys.argv[1]; want = sys.argv[2:]
W = "/tmp/rfw"; os.makedirs(W, exist_ok=True)
res = json.load(open(out)) if os.path.exists(out) else {}
JOBS = int(os.environ.get("JOBS", "2"))
def go(item):
    id, checks, eds = item
    d = "%s/%s" % (W, id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    # the committed state of /verif, with what has been built already
    subprocess.run("mkdir -p {0}/verif && cd {1} && git archive HEAD | tar xf - -C {0}/verif && for c in symx llh llsym; do cp -a $c/target {0}/verif/$c/; done".format(d, V), shell=True, check=True)
    for f, old, new in eds:
        t = open(d + "/repo/" + f).read()
        if old == "@impl":  # everything between the imports and the tests
            head = t.split("#[cfg(test)]")[0]
            i = head.index("\n", head.rindex("use super::")) + 1 if "use super::" in head else 0
            open(d + "/repo/" + f, "w").write(t[:i] + new + (t[t.index("#[cfg(test)]"):] if "#[cfg(test)]" in t else ""))
            continue
        m = re.search(r"(?:\s|//[^\n]*\n)+".join(map(re.escape, old.split())), t)  # whatever the layout and the comments
        if not m: print("NOMATCH", id, f, repr(old[:60])); shutil.rmtree(d); return
        open(d + "/repo/" + f, "w").write(t[:m.start()] + new + t[m.end():])
    ns = lambda c, t: subprocess.run(["unshare", "-m", "--propagation", "private", "bash", "-c", "mount --bind %s/repo /repo; mount --bind %s/verif /verif; %s" % (d, d, c)], capture_output=True, text=True, timeout=t)
    b = ns("cd /repo && CARGO_NET_OFFLINE=true cargo test --offline --lib 2>&1 | tail -40", 600)
    ok = "test result: ok" in b.stdout
    if not ok: print("TESTS FAIL", id, b.stdout[-1500:]); shutil.rmtree(d); return
    for c in checks:
        if want and not any(w == id or w == id + ":" + c for w in want): continue
        t = time.time()
        try: r = ns("cd /verif && ./check %s quick" % c, 1500); rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired: rc, o = None, "TIMEOUT"
        res[id + ":" + c] = dict(rc=rc, s=round(time.time() - t, 1), tail=o[-1500:])
        json.dump(res, open(out, "w"), indent=1)
        print("quiet" if rc == 0 else "ALARM", id, c, rc, round(time.time() - t, 1), "" if rc == 0 else o[-700:], flush=True)
    shutil.rmtree(d)
todo = [x for x in refactor_defs.R if (not want and not any(k.startswith(x[0] + ":") for k in res)) or any(w.split(":")[0] == x[0] for w in want)]
with ThreadPoolExecutor(JOBS) as ex:
    for f in [ex.submit(go, x) for x in todo]: f.result()
