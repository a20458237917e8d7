"""Line queue: random histories of queueing and taking."""
from vlib import Check
class C07(Check):
    id, module, spec, cfg = "C07", "queue", "LineQueueTrace.tla", "LineQueueTrace.cfg"
    mc = {"quick": [("MCLineQueue.tla", "MCLineQueue.cfg")], "thorough": [("MCLineQueue.tla", "MCLineQueueT.cfg")]}
    technique = "TLA+ specification of the queue model-checked by TLC; recorded histories of the real line_queue validated against it"
    level_note = "All histories of 4 (thorough: 5) operations on 5 text shapes are explored in the specification; the real queue is run on random histories and every result and state must match."
    assumptions = ["texts are in the Basic Multilingual Plane; macros in queued lines take no arguments (C08 covers those)"]
    def scenarios(self, rng, tier):
        n = 150 if tier == "quick" else 3000
        return [self.gen(rng) for _ in range(n)]
    def gen(self, rng):
        texts = ["", "a", "dir\r\n", "x y\n", "\n", "\r\n", "part", "t\u00e9\u4e2d\r\n", "ab\r", "a\n\n", "q\r\n\r\n", "L" * 300 + "\n", "\u20ac", " ", "tail \n", "one\ntwo\n"]
        sc = [["reset"]]
        al = []
        if rng.random() < 0.4:
            al = ["al", "mac"]
            for a in al: sc.append(["alias", a] + [rng.choice(["echo one", "x", "dir /w", "al", "q r s", "t\u00e9"]) for _ in range(rng.randint(1, 5))])
        chars = rng.random() < 0.5
        for _ in range(rng.randint(8, 40)):
            x = rng.random()
            if x < 0.3: sc.append(["back", rng.choice(texts)])
            elif x < 0.45:
                l = ["front"]
                for _ in range(rng.randint(0, 3)):
                    t = rng.choice(texts)
                    if al and rng.random() < 0.5:
                        l += [rng.choice(al) + rng.choice(["", "\n", "\r\n"]), rng.choice([0, 0, 0, 8, 1, 2])]
                    else: l += [t, rng.choice([1, 2, 8, 9, 10])]
                sc.append(l)
            elif x < 0.7: sc.append(["line"])
            elif x < 0.98: sc += [["char"]] * (rng.randint(1, 6) if chars else 1)
            else: sc.append(["clear"])
        return sc + [["line"]] * 6
    def transform(self, events):
        u = lambda s: [ord(c) for c in s.encode("latin-1").decode("utf-8", "replace")]
        out = []
        for e in events:
            e = dict(e)
            if e["op"] == "back": e["a"] = u(e["a"])
            if e["op"] == "front": e["a"] = [dict(v=u(x["v"]), f=x["f"]) for x in e["a"]]
            if e["op"] == "alias": e["n"] = u(e["n"]); e["l"] = [u(x) for x in e["l"]]
            if e["op"] == "line": e["v"] = u(e["v"])
            out.append(e)
        return out
CHECK = C07()
