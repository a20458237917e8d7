#!/usr/bin/env python3
"""plant.py ID...  -  try planted bugs: applies seeded/ID/patch.diff to /repo,
builds, runs the stable tests and the demonstration (must fail), runs the
property's check (should report a VIOLATION), reverts, rebuilds, and runs the
demonstration again (must pass).  Records the outcome in seeded/RESULTS.
--new ID PROPERTY NEEDS BREAKS : makes seeded/ID from the uncommitted change in /repo
  (and reverts it) with demo.cpp from stdin."""
import sys, os, json, subprocess, time
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    r = sh("bash /opt/vp/build.sh", timeout=1500)
    if r.returncode: print(r.stdout[-3000:]); return False
    return True
def new(a):
    id, prop, needs, breaks = a
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    p = sh(f"git -C {R} diff").stdout
    if not p.strip(): sys.exit("no change in /repo")
    open(d + "/patch.diff", "w").write(p)
    open(d + "/demo.cpp", "w").write(sys.stdin.read())
    sh(f"cp {V}/tools/plant/demo.sh {d}/demo.sh; chmod +x {d}/demo.sh")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    sh(f"git -C {R} checkout -- .")
def try_one(id):
    d = f"{V}/seeded/{id}"; m = json.load(open(d + "/meta.json")); res = {}
    assert not sh(f"git -C {R} status --short").stdout.strip(), "repo not clean"
    r = sh(f"git -C {R} apply {d}/patch.diff")
    if r.returncode: return dict(error="patch: " + r.stdout)
    try:
        if not build(): return dict(error="does not build")
        r = sh(f"bash {d}/demo.sh", cwd=R); res["demo_with"] = r.returncode; print("  demo with bug:", r.returncode, r.stdout[-400:].strip())
        if "notests" not in os.environ:
            r = sh("bash /verif/bin/repotests.sh"); res["tests"] = r.stdout.strip()[-300:]; print("  tests:", res["tests"])
        t = time.time()
        r = sh(f"python3 bin/check.py {m['property']}", cwd=V, env=dict(os.environ, VERIF_NOMC="1"))
        res["caught"] = r.returncode == 1 and f"VIOLATION property={m['property']}" in r.stdout
        res["secs"] = round(time.time() - t); print("  check:", r.returncode, r.stdout[-600:].strip())
    finally:
        sh(f"git -C {R} checkout -- .")
        build()
    r = sh(f"bash {d}/demo.sh", cwd=R); res["demo_without"] = r.returncode; print("  demo without:", r.returncode, r.stdout[-400:].strip())
    res["valid"] = res["demo_with"] != 0 and res["demo_without"] == 0 and "missing []" in res.get("tests", "missing []")
    return res
if sys.argv[1] == "--new": new(sys.argv[2:])
else:
    f = V + "/tools/plant/RESULTS.json"
    ids = sorted(os.listdir(V + "/seeded")) if sys.argv[1] == "all" else sys.argv[1:]
    for i in ids:
        print("==", i, flush=True); res = try_one(i); print("  ->", res, flush=True)
        all = json.load(open(f)) if os.path.exists(f) else {}
        all[i] = res; json.dump(all, open(f, "w"), indent=1, sort_keys=True)
