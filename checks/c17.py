"""Prompt filters: random filters, coroutines and modules under the real prompt.lua."""
import re
from vlib import Check
class C17(Check):
    id, module, spec, cfg = "C17", "prompt", "PromptTrace.tla", "PromptTrace.cfg"
    mc = {"quick": [("MCPrompt.tla", "MCPrompt.cfg")], "thorough": [("MCPrompt.tla", "MCPromptT.cfg")]}
    technique = "TLA+ specification of prompt filtering (order, stopping, surrounding, codes, coroutines, modules) model-checked by TLC; random filters, coroutines and modules run under the real scripts, and every call and every resulting prompt validated against it"
    level_note = "The refresh algorithm is checked over all schedules of small filters; the real scripts must follow the specification on generated filters and schedules."
    assumptions = ["the host around prompt_filter is a stand-in; one Lua state"]
    def scenarios(self, rng, tier):
        n = 1 if tier == "quick" else 20
        scs = [self.gen(rng) for k in range(300 * n)]
        return scs + [self.codes(rng) for k in range(40 * n)]
    def codes(self, rng):
        sc = [["reset", 1, rng.randint(0, 1), 1, "", "", "", ""]]
        for k in range(12):
            t = "".join(rng.choice(["$" + rng.choice("ABCEFGLQS_$HMNP+abcefglqshmnpxyz0 "), "$" + rng.choice("HhMm_+$ "), rng.choice("aB >:\n\r "), "x"]) for _ in range(rng.randint(0, 7)))
            sc.append(["expand", t + rng.choice(["", "", "$"]), rng.randint(0, 2), rng.choice([0, 1, 2, -1])])
        return sc
    def gen(self, rng):
        def env(): return rng.choice(["", "", "<", "$g$$", "x$_y", "$p$m ", "a b"])
        sc = [["reset", rng.choice([1, 1, 1, 0]), rng.choice([0, 0, 1]), rng.randint(1, 60000), env(), env(), env(), env()]]
        n = rng.randint(1, 5)
        mods = ["m%d" % k for k in range(1, rng.choice([0, 0, 0, 1, 2, 3]) + 1)]
        for m in mods: sc.append(["module", m, ";".join(rng.sample(mods + ["none"], rng.choice([0, 0, 1, 1, 2]) if len(mods) else 0))])
        def fn(id, co, trans):
            c = "".join(rng.choice("aaapzlkqw" if rng.random() < .5 else "a") for _ in range(rng.randint(0, 2)))
            if co and rng.random() < .6: c += "".join(rng.choice("0012") for _ in range(rng.choice([1, 1, 2])))
            if rng.random() < .04: c += "e"
            return c + rng.choice("........!!Tn" + ("N" if trans else ""))
        prios = rng.sample(range(1, 90), n)
        if n > 1 and rng.random() < .25: prios[1] = prios[0]
        for k in range(1, n + 1):
            co = rng.random() < .6
            for o in "012":
                if co and rng.random() < .7:
                    body = "".join(rng.choice("yyyf") for _ in range(rng.choice([0, 1, 2, 3, 3, 27]))) + rng.choice(["r", "r", "r", "n", "e", ""])
                    sc.append(["body", "%d.%s" % (k, o), body])
            if rng.random() < .1: sc.append(["filter", k, prios[k - 1], "", rng.choice([".", "!"]), "", "old", "", ""]); continue
            mod = rng.choice(mods) if mods and rng.random() < .7 else ""
            s = "" if rng.random() < .6 else "|".join(rng.choice(["-", "(", "$l%d" % k, "b%d" % k, "$$"]) for _ in range(rng.randint(1, 4)))
            sc.append(["filter", k, prios[k - 1], mod, fn(k, co, 0) if rng.random() < .97 else "", rng.choice(["", fn(k, co, 0)]), rng.choice(["", fn(k, co, 1)]), rng.choice(["", "", fn(k, 0, 1)]), s])
        def text(): return rng.choice(["p>", "p>", "", "d\np>", "p>\n", "\x1b[31mp", "a b "])
        def right(): return rng.choice(["", "r", "r "])
        if mods and rng.random() < .7: sc.append(["activate", rng.choice(["name", "full", "slash"]), rng.choice(mods)])
        sc.append(["line", text(), right()])
        for _ in range(rng.randint(3, 14)):
            r = rng.random()
            if r < .5: sc += [["pass"], ["wait"]]
            elif r < .65: sc.append(["line", text(), right()])
            elif r < .75: sc.append(["refilter"])
            elif r < .85: sc.append(["transient", text(), right()])
            elif r < .9: sc.append(["async", rng.choice([1, 1, 0])])
            elif mods: sc.append(["activate", rng.choice(["name", "full", "slash"]), rng.choice(mods + [""])])
        return sc + [["pass"], ["wait"]]
    def transform(self, events):
        esc = "\x1b"
        for e in events:
            if e["op"] == "reset": e["esc"], e["bel"] = "\x1b", "\x07"
            e["log"] = [t.split("\t") for t in e["log"]]
            if e["op"] == "module": e["dep"] = [d for d in e["dep"].split(";") if d]
        return events
CHECK = C17()
