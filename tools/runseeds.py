#!/usr/bin/env python3
"""Runs the checks against the planted bugs, each in its own mount namespace on copies of /repo and of the committed /verif:
runseeds.py OUT.json [id[:check] ...]     (JOBS at a time)"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]; want = dict((w.split(":") + [None])[:2] for w in sys.argv[2:])
W = "/tmp/sdw"; os.makedirs(W, exist_ok=True)
res = json.load(open(out)) if os.path.exists(out) else {}
def go(id):
    s = V + "/seeded/" + id
    prop = want.get(id) or json.load(open(s + "/meta.json"))["property"]
    d = "%s/%s" % (W, id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["git", "-C", d + "/repo", "apply", s + "/patch.diff"], check=True)
    subprocess.run("mkdir -p {0}/verif && cd {1} && git archive HEAD -- . ':!seeded' | tar xf - -C {0}/verif && for c in symx llh llsym; do cp -a $c/target {0}/verif/$c/; done".format(d, V), shell=True, check=True)
    t = time.time()
    try: r = subprocess.run(["unshare", "-m", "--propagation", "private", "bash", "-c", "mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /verif && ./check %s quick" % (d, d, prop)], capture_output=True, text=True, timeout=1500); rc, o = r.returncode, r.stdout
    except subprocess.TimeoutExpired: rc, o = None, "TIMEOUT"
    caught = rc == 1 and "VIOLATION property=%s " % prop in o
    res[id if prop == id[:3] else id + ":" + prop] = dict(rc=rc, s=round(time.time() - t, 1), caught=caught, tail=o[-1500:])
    json.dump(res, open(out, "w"), indent=1)
    print("caught" if caught else "MISSED", id, prop, rc, round(time.time() - t, 1), "" if caught else o[-600:], flush=True)
    shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for f in [ex.submit(go, x) for x in sorted(os.listdir(V + "/seeded")) if not want or x in want]: f.result()
