"""Shared machinery of the checks: build the driver from /repo's working tree,
run scripts on it under Wine, validate the recorded traces with TLC, model-check
the specifications, and write evidence."""
import concurrent.futures, fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NINJA = os.path.join(BUILD, "ninja")
EXE = os.path.join(NINJA, "bin/debug/vdrv.exe")
WINEPREFIX = os.path.join(BUILD, "wine")
SPECS = os.path.join(VERIF, "specs")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)

class CheckError(Exception):
    """The check itself failed (tool, build or harness problem): no verdict."""

def env():
    e = dict(os.environ)
    e.update(WINEPREFIX=WINEPREFIX, WINEDEBUG="-all", LC_ALL="C.UTF-8", LANG="C.UTF-8", HOME="/root",
             WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=")
    e.pop("DISPLAY", None)
    for k in list(e):
        if k.upper().startswith("CLINK"):
            del e[k]
    return e

# ---------------------------------------------------------------- building
def _sources():
    for top in ("clink", "readline", "lua", "wildmatch", "detours", "getopt"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            if "/test" in d[len(REPO):]:
                continue
            for f in fs:
                if f.endswith((".c", ".cpp", ".h", ".i", ".rc")):
                    yield os.path.join(d, f)

def _hashes():
    r = {}
    for p in _sources():
        with open(p, "rb") as f:
            r[p] = hashlib.sha1(f.read()).hexdigest()
    return r

def build(quiet=True):
    """Rebuilds the driver from REPO's working tree.  ninja goes by time stamps;
    when content changed without a newer time stamp, start from scratch."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hfile = os.path.join(BUILD, "hashes.json")
        now = _hashes()
        old, stamp = None, 0
        if os.path.exists(hfile) and os.path.exists(EXE):
            old = json.load(open(hfile))
            stamp = os.stat(hfile).st_mtime
        if old is not None:
            for p, h in now.items():
                if old.get(p) != h and os.stat(p).st_mtime <= stamp:
                    os.utime(hfile, None)
                    shutil.rmtree(NINJA, ignore_errors=True)
                    break
        gen = os.path.join(BUILD, "gen")
        os.makedirs(gen, exist_ok=True)
        def run(cmd, what):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode:
                sys.stdout.write(p.stdout[-6000:])
                raise CheckError(what + " failed")
        run([sys.executable, f"{VERIF}/harness/cmake/prepare.py", REPO, gen], "prepare")
        t0 = time.time()
        if not os.path.exists(f"{NINJA}/build.ninja"):
            run(["cmake", "-S", f"{VERIF}/harness/cmake", "-B", NINJA, "-G", "Ninja",
                 f"-DCMAKE_TOOLCHAIN_FILE={VERIF}/harness/cmake/toolchain.cmake",
                 f"-DREPO={REPO}", f"-DGEN={gen}", f"-DHARNESS={VERIF}/harness"], "cmake")
        run(["ninja", "-C", NINJA, "vdrv"], "build")
        json.dump(now, open(hfile, "w"))

def wine_setup():
    if os.path.exists(os.path.join(WINEPREFIX, "verif.ok")):
        return
    shutil.rmtree(WINEPREFIX, ignore_errors=True)
    os.makedirs(WINEPREFIX)
    subprocess.run(["wineboot", "-i"], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
    for _ in range(100):
        if os.path.exists(os.path.join(WINEPREFIX, "system.reg")):
            break
        time.sleep(0.1)
    else:
        raise CheckError("wineboot failed")
    subprocess.run(["/usr/lib/wine/wineserver", "-w"], env=env(), timeout=120)
    open(os.path.join(WINEPREFIX, "verif.ok"), "w").close()

def setup():
    build()
    wine_setup()

# ---------------------------------------------------------------- driver
def esc(s):
    """bytes/str -> script field"""
    if isinstance(s, bool):
        s = "true" if s else "false"
    if not isinstance(s, (bytes, str)):
        s = str(s)
    if isinstance(s, str):
        s = s.encode("utf-8")
    return "".join(chr(c) if 33 <= c <= 126 and c != 37 else "%%%02x" % c for c in s)

class Driver:
    """Runs one script; result is (events, status), status in ok|crash|hang."""
    def __init__(self, work, timeout=120, extra_env=None):
        self.work, self.timeout, self.extra = work, timeout, extra_env or {}
    def run(self, module, lines):
        d = tempfile.mkdtemp(dir=self.work)
        scr, out = os.path.join(d, "script.txt"), os.path.join(d, "out.ndjson")
        with open(scr, "w") as f:
            for l in lines:
                f.write("\t".join(esc(x) for x in l) + "\n")
        e = env(); e.update(self.extra)
        tmp = os.path.join(d, "tmp"); os.makedirs(tmp)
        e["TMP"] = e["TEMP"] = "Z:" + tmp.replace("/", "\\")
        status, code, log = "ok", 0, ""
        try:
            p = subprocess.run(["wine", EXE, module, scr, out], cwd=d, env=e, timeout=self.timeout,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            code, log = p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            status = "hang"
            subprocess.run(["pkill", "-9", "-f", scr.replace("/", ".")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        events = []
        if os.path.exists(out):
            for l in open(out, encoding="utf-8", errors="replace"):
                if l.endswith("\n"):
                    try:
                        events.append(json.loads(l))
                    except ValueError:
                        break
        done = bool(events) and events[-1].get("e") == "END"
        if done:
            if events[-1]["rc"]:
                raise CheckError(f"driver module {module} failed: {log[-2000:]}")
            events.pop()
        elif code == 77:
            raise CheckError(f"driver module {module} rejected its script: {log[-2000:]}")
        elif status == "ok":
            status = "crash"
        self.log = log
        shutil.rmtree(d, ignore_errors=True)
        return events, status

# ---------------------------------------------------------------- TLC
def tlc(spec, cfg, work, envs=None, workers=1, heap="3g", timeout=840, extra=()):
    """Returns (output, returncode)."""
    d = tempfile.mkdtemp(dir=work)
    e = dict(os.environ); e.update(envs or {})
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m",
           "-XX:TieredStopAtLevel=4", "-cp", CP, f"-DTLA-Library={SPECS}", "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", d, "-config", cfg, *extra, spec]
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        shutil.rmtree(d, ignore_errors=True)
        raise CheckError(f"TLC timed out on {spec}/{cfg}")
    shutil.rmtree(d, ignore_errors=True)
    return p.stdout, p.returncode

def tlc_stats(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

def model_check(spec, cfg, work, workers=CORES, heap="12g", timeout=3600, extra=()):
    """Exhaustive run; an error here is an error of the specification, not of the code."""
    out, rc = tlc(spec, cfg, work, workers=workers, heap=heap, timeout=timeout, extra=extra)
    if rc != 0 or "No error has been found" not in out:
        print("\n".join(l for l in out.splitlines() if not re.match(r"(Parsing|Semantic|Linting)", l))[-4000:])
        raise CheckError(f"model checking {spec} with {cfg} failed")
    g, d = tlc_stats(out)
    if d < 2:
        raise CheckError(f"model checking {spec} explored nothing")
    return g, d

def tlc_trace(spec, cfg, events, work):
    """Validates one trace.  Returns (accepted_prefix_length, transitions, diag)."""
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=work)
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    out, rc = tlc(spec, cfg, work, envs={"TRACE": path})
    os.unlink(path)
    m = re.findall(r'"DEPTH", (\d+)', out)
    if not m or rc != 0:
        raise CheckError(f"trace validation {spec} failed to run:\n" +
                         "\n".join(l for l in out.splitlines() if not re.match(r"(Parsing|Semantic|Linting)", l))[-3000:])
    g, d = tlc_stats(out)
    diag = []
    flat = re.sub(r"\s*\n\s+", " ", out)
    for l in flat.splitlines():
        if l.lstrip().startswith('<<"MISMATCH"') or l.lstrip().startswith('<< "MISMATCH"'):
            diag.append(l.strip())
    return int(m[-1]) - 1, g, diag

# ---------------------------------------------------------------- checks
class Check:
    id = None           # property
    module = None       # driver module
    spec = None         # trace specification
    cfg = None
    mc = {}             # tier -> list of (spec, cfg)
    technique = ""
    assumptions = []
    shards = CORES
    timeout = 150
    samples_n = 2

    def scenarios(self, rng, tier):     # list of scenarios; a scenario is a list of script lines
        raise NotImplementedError
    def known(self):                    # key -> scenario expected to be rejected
        return {}
    def transform(self, events):        # driver events -> trace events
        return events
    def script(self, sc):               # scenario -> script lines (first resets)
        return sc
    def is_reset(self, e):
        return e.get("op") == "reset"
    def extra_env(self):
        return {}
    def weight(self, sc):
        return len(sc)

    # -- one group of scenarios: run, validate; returns dict
    def group(self, scs, work):
        lines = []
        for sc in scs:
            lines += self.script(sc)
        ev, status = Driver(work, self.timeout, self.extra_env()).run(self.module, lines)
        starts = [i for i, e in enumerate(ev) if self.is_reset(e)]
        res = dict(events=len(ev), trans=0, bad=None, status=status)
        tr = self.transform(ev)
        if tr:
            n, g, diag = tlc_trace(self.spec, self.cfg, tr, work)
            res["trans"] = g
            if n < len(tr):
                # map back to the scenario (transform keeps reset events)
                k = -1
                for e in tr[:n + 1]:
                    if self.is_reset(e):
                        k += 1
                res["bad"] = (k, n, tr[n], diag[-6:])
                return res
        if status != "ok":
            res["bad"] = (max(0, len(starts) - 1), len(tr), {"op": status}, [])
        return res

    def one(self, sc, work):
        """Validates a scenario alone; returns None or a description."""
        r = self.group([sc], work)
        if r["bad"]:
            k, n, e, diag = r["bad"]
            return dict(step=n, event=e, diag=diag, status=r["status"])
        return None

    def shrink(self, sc, work, budget=float(os.environ.get("VERIF_SHRINK", 25))):
        """Drops script lines (never the first) while the violation remains."""
        t0 = time.time()
        best = list(sc)
        size = max(1, len(best) // 2)
        while time.time() - t0 < budget:
            i = len(best) - size
            while i > -size and time.time() - t0 < budget:
                lo = max(1, i)
                cand = best[:lo] + best[i + size:]
                try:
                    if len(cand) < len(best) and self.one(cand, work):
                        best = cand
                except CheckError:
                    pass
                i -= size
            if size == 1:
                break
            size = max(1, size // 2)
        return best

def load_known():
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                r.setdefault(m[1], {})[m[2]] = m[3].strip()
    return r

def main(chk, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER") or "quick"
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED") or 1)
    ev_path = os.path.join(VERIF, "evidence", chk.id + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=chk.id + ".", dir=os.path.join(BUILD, "run"))
    try:
        return _main(chk, tier, seed, ev_path, work, t0)
    except CheckError as e:
        print(f"CHECK ERROR property={chk.id}: {e}")
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

def _main(chk, tier, seed, ev_path, work, t0):
    setup()
    tb = time.time()
    rng = random.Random(seed * 1000003 + sum(map(ord, chk.id)))
    states = trans = 0
    with concurrent.futures.ThreadPoolExecutor(max_workers=CORES + 2) as pool:
        # conformance traces
        scs = chk.scenarios(rng, tier)
        order = list(range(len(scs)))
        groups = [[] for _ in range(min(chk.shards, max(1, len(scs))))]
        loads = [0] * len(groups)
        for i in order:
            g = loads.index(min(loads))
            groups[g].append(i)
            loads[g] += chk.weight(scs[i])
        futs = [pool.submit(chk.group, [scs[i] for i in g], work) for g in groups if g]
        results = [f.result() for f in futs]
        tg = time.time()
        # exhaustive checking of the specification
        mcs = chk.mc.get(tier, chk.mc.get("quick", []))
        mcr = [] if os.environ.get("VERIF_NOMC") else [model_check(s, c, work, *a) for s, c, *a in mcs]
    tm = time.time()
    for g, d in mcr:
        trans += g
        states += d
    violations = []
    for g, r in zip([g for g in groups if g], results):
        trans += r["trans"]
        if r["bad"]:
            k, n, e, diag = r["bad"]
            sc = scs[g[k]]
            # confirm on its own
            again = chk.one(sc, work)
            if again is None:
                # depends on what ran before it: confirm the whole group
                r2 = chk.group([scs[i] for i in g], work)
                if not r2["bad"]:
                    raise CheckError(f"a rejection did not repeat: {json.dumps(e)[:500]}")
                sc = [l for i in g[:k + 1] for l in chk.script(scs[i])]
                again = dict(step=n, event=e, diag=diag, status=r["status"])
            violations.append((sc, again))
    rc = 0
    if violations:
        sc, info = min(violations, key=lambda v: len(v[0]))
        if len(sc) < 400:
            sc = chk.shrink(sc, work)
            info = chk.one(sc, work) or info
        path = os.path.join(VERIF, "evidence", chk.id + ".replay.txt")
        with open(path, "w") as f:
            f.write(f"# property {chk.id}: the real code's behaviour is not one of {chk.spec}'s\n")
            f.write(f"# replay: python3 /verif/bin/check.py {chk.id} replay {path}\n")
            f.write(f"# step {info['step']} status {info['status']}: {json.dumps(info['event'])[:3000]}\n")
            for d in info["diag"]:
                f.write(f"# {d[:3000]}\n")
            for l in chk.script(sc):
                f.write("\t".join(esc(x) for x in l) + "\n")
        print("".join(l[:400].rstrip("\n") + "\n" for l in open(path).readlines()[:60]))
        print(f"VIOLATION property={chk.id} replay={path}")
        rc = 1
    # known findings
    listed = load_known().get(chk.id, {})
    for key, sc in chk.known().items():
        if key not in listed:
            continue
        if chk.one(sc, work):
            print(f"KNOWN-FINDING: property={chk.id} {listed[key]}")
    samples = []
    for sc in scs[:chk.samples_n]:
        samples.append([" ".join(esc(x) for x in l) for l in chk.script(sc)][:40])
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=len(scs) if not violations else len(scs) - len(violations),
               events_validated=sum(r["events"] for r in results),
               model_checking_runs=[f"{s}/{c[0]}" for s, *c in mcs], samples=samples)
    cov.update(getattr(chk, "extra_cov", {}))
    json.dump(dict(property=chk.id, tier=tier, seed=seed, level="model_checking", coverage=cov,
                   assumptions=chk.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations)),
              open(ev_path, "w"), indent=1)
    print(f"{chk.id} {tier}: {len(scs)} traces, {cov['events_validated']} events, {states} states, {trans} transitions; "
          f"build {tb-t0:.1f}s traces {tg-tb:.1f}s mc {tm-tg:.1f}s total {time.time()-t0:.1f}s")
    return rc
