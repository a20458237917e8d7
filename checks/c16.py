"""Background coroutines: random programs under the real scheduler, with made-up processes and clock."""
import re
from vlib import Check
def num(s): return int(re.sub(r"\D", "", s) or 0)
def entry(t):
    f = t.split(" ")
    e = {"k": f[0], "n": 0, "p": 0, "c": "", "l": 0}
    a = f[1].split(".")
    e["n"] = int(a[0])
    if len(a) > 1: e["p"] = int(a[1])
    if f[0] in "om": e["c"], e["l"] = f[2], int(f[3])
    if f[0] == "g": e["c"] = f[2]
    if f[0] == "c": e["l"] = int(f[2])
    return e
class C16(Check):
    id, module, spec, cfg = "C16", "coro", "CoroTrace.tla", "CoroTrace.cfg"
    mc = {"quick": [("MCCoro.tla", "MCCoro.cfg")], "thorough": [("MCCoro.tla", "MCCoroT.cfg")]}
    technique = "TLA+ specification of the coroutine scheduler model-checked by TLC; random programs run under the real scheduler with stand-ins for processes and clock, and every step validated against it"
    level_note = "The scheduler's algorithm is checked over all schedules of small programs; the real scheduler must follow the specification on generated programs and schedules."
    assumptions = ["processes and the clock are stand-ins; one Lua state"]
    def scenarios(self, rng, tier):
        return [self.gen(rng) for k in range(320 if tier == "quick" else 20000)]
    def gen(self, rng):
        thr = rng.choice([0, 0, 0, 5])
        timed = thr or rng.random() < .25     # Otherwise coroutines may sleep.
        sc = [["reset", thr, rng.randint(1, 60000)], ["line"]]
        n = rng.randint(1, 6)
        procs = []
        cats = rng.choice([["prompt"], ["prompt", ""], ["prompt", "generator", ""], ["generator", ""], [""]])
        mix = rng.choice(["ypqwx", "ypqwxpqx", "yymmr", "ypdl", "ypxcu", "ypqwxmdlcuefrij"]) + ("z" if not timed else "ij")
        for k in range(1, n + 1):
            prog = []
            for j in range(1, rng.randint(1, 5) + 1):
                o = rng.choice(mix)
                if o in "pqx": procs.append("%d.%d" % (k, j))
                prog.append(o + (str(rng.randint(1, n)) if o in "crf" else rng.choice(["1", "2", "3", "11", "12", str(20 + rng.randint(1, n)), str(30 + rng.randint(1, n))]) if o == "m" else
                                 str(rng.choice([0, 2, 4, 8, 20, 24])) if o == "i" else str(rng.randint(1, 4)) if o in "dl" else str(rng.randint(0, 6)) if o == "z" else ""))
            sc.append(["prog", k, rng.choice(cats), rng.choice([0, 0, 1, 2, 6]) if timed else 0] + prog)
        new = list(range(1, n + 1))
        if rng.random() < .5: rng.shuffle(new)
        for _ in range(rng.randint(0, n)): sc.append(["new", new.pop()])
        sc += [["wait"], ["pass"]]
        for _ in range(rng.randint(4, 24)):
            r = rng.random()
            if r < .45:
                if rng.random() < .8: sc.append(["wait"])
                if timed and rng.random() < .5: sc.append(["tick", rng.choice([1, 4, 20, 24, 60, 130])])
                if not timed and rng.random() < .3: sc.append(["tick", rng.randint(1, 6)])
                sc.append(["pass"])
            elif r < .7 and procs:
                sc.append([rng.choice(["fin", "fin", "exit"]), rng.choice(procs)])
                if rng.random() < .7: sc.append(["pass"])
                sc.append(["wait"])
            elif r < .8:
                if new: sc.append(["new", new.pop()])
            else:
                o = rng.choice(["line", "cancel", "remove", "resume", "resume", "until", "main", "cd", "rl"])
                sc.append([o] if o == "line" else [o, rng.choice([1, 11, 20 + rng.randint(1, n), 30 + rng.randint(1, n)]) if o == "main" else rng.randint(0, 4) if o in ("cd", "rl") else rng.randint(1, n)])
        # In the end everything finishes.
        for _ in range(4):
            for p in procs: sc.append(["exit", p])
            sc += [["wait"], ["pass"], ["wait"], ["pass"]]
        return sc
    def transform(self, events):
        for e in events:
            e["log"] = [entry(t) for t in e["log"]]
            e["dead"] = [int(x) for x in e["dead"].split()]
            if "prog" in e: e["prog"] = [{"o": o[0], "n": num(o), "c": o} for o in e["prog"]]
            if "a" in e:
                a = e.pop("a").split(".")
                e["n"] = int(a[0] or 0); e["p"] = int(a[1]) if len(a) > 1 else 0; e["c"] = "d" + a[0]
        return events
CHECK = C16()
