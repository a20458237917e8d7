"""Suggestions."""
from vlib import Check
class C19(Check):
    id, module, spec, cfg = "C19", "suggest", "SuggestTrace.tla", "SuggestTrace.cfg"
    mc = {"quick": [("MCSuggest.tla", "MCSuggest.cfg")], "thorough": [("MCSuggest.tla", "MCSuggestT.cfg")]}
    technique = "TLA+ specification of suggestions (choosing, showing, accepting in whole or part, listing) model-checked by TLC; random sessions in the real line editor with the real suggest.lua, validated against it after each key"
    level_note = "What accepting makes of a line is checked over all small lines, suggestions and settings; the real editor and scripts must follow the specification on generated sessions."
    assumptions = ["ASCII lines; suggestions generated at once (autosuggest.async off)"]
    def scenarios(self, rng, tier):
        n = 1 if tier == "quick" else 25
        return [self.session(rng) for k in range(450 * n)] + [self.lists(rng) for k in range(120 * n)]
    W = ["dir", "Dir", "foo", "bar", "b", "\"b c\"", "Foo", "a-b", "dir.x", "x.y", "fo", "f", "d", "\"f", "  "]
    def text(self, rng, n=4): return " ".join(rng.choice(self.W) for _ in range(rng.randint(1, n)))
    def setup(self, rng, names):
        st = [n for n in rng.sample(["history", "completion", "match_prev_cmd", "A", "B", "none"], rng.randint(1, 6))]
        if rng.random() < .2: st.append(rng.choice(st))
        sc = [["reset", rng.randint(0, 1), rng.randint(0, 1), rng.choice([1, 1, 1, 1, 0]), rng.choice(["add", "add", "erase_prev", "ignore"]), rng.choice([3, 3, 1, 2, 8, 0, 20]), " ".join(st)]]
        some = [self.text(rng) for _ in range(rng.randint(1, 4))]
        if rng.random() < .25: # A command and its lookalikes, each followed by lines that begin alike.
            if rng.random() < .8: sc[0][4] = "add"
            if rng.random() < .6: sc[0][6] = " ".join(["match_prev_cmd"] + [n for n in st if n != "match_prev_cmd"])
            run, then = self.text(rng, 2), self.text(rng, 1)
            like = [run, run, run + " x", run + "x", run[:-1] or "z", run.swapcase(), run.replace("-", "_"), "x" + run]
            for k in range(rng.randint(1, 5)):
                sc.append(["hist", rng.choice(like)])
                if rng.random() < .85: sc.append(["hist", then + " " + self.text(rng, 1)])
            sc.append(["hist", run])
        for k in range(rng.choice([0, 2, 4, 8, 14]) if sc[-1][0] == "reset" else 0): sc.append(["hist", rng.choice(some) if rng.random() < .6 else self.text(rng)])
        for w in sorted(rng.sample(["bar", "baz", "b c", "dir", "dirx", "foo", "foo bar", "fob", "f&g", "x"], rng.choice([0, 2, 4, 7]))): sc.append(["word", w])
        return sc
    def rules(self, rng, texts, many):
        sc = []
        for n in "AB":
            kind = rng.choice(["one", "one", "named", "many", "many", "error"] if rng.random() < .3 else ["one", "many", "named"])
            sc.append(["suggester", n, kind])
            for k in range(rng.choice([0, 1, 2, 3])):
                t = rng.choice(texts) if rng.random() < .7 else self.text(rng)
                key = t[:rng.randint(0, 4)]
                if rng.random() < .6: off, out = 1, [t] + [key + self.text(rng, 2) for _ in range(rng.randint(0, many))]
                elif rng.random() < .5: off, out = 0, [self.text(rng, 2) for _ in range(rng.randint(1, many + 1))]
                else: off = rng.randint(1, len(key) + 2); out = [t[off - 1:] or "z"] + [self.text(rng, 2) for _ in range(rng.randint(0, many))]
                sc.append(["rule", n, key, off, "|".join(out) if rng.random() > .04 else ""])
        return sc
    def session(self, rng):
        sc = self.setup(rng, "AB")
        texts = [l[1] for l in sc if l[0] == "hist"] or ["dir foo", "foo bar"]
        sc += self.rules(rng, texts, 2)
        goal, typed = "", ""
        for k in range(rng.choice([10, 20, 30])):
            r = rng.random()
            if r < .62:
                if not goal: goal = rng.choice(texts) if rng.random() < .7 else self.text(rng); goal = goal.swapcase() if rng.random() < .2 else goal
                sc.append(["key", goal[0] if rng.random() < .92 else rng.choice("dfb \"x")]); goal = goal[1:]
            elif r < .8:
                sc.append(["cmd", rng.choice(["clink-insert-suggested-line", "clink-insert-suggested-word", "clink-insert-suggested-full-word", "clink-insert-suggested-full-word", "forward-char", "end-of-line", "forward-word"])])
                if rng.random() < .35: sc[-1] = ["quick", sc[-1][1], goal[:1] or rng.choice("dfbx \"")]; goal = goal[1:]
                if rng.random() < .5: goal = ""
            else:
                sc.append(["cmd", rng.choice(["backward-delete-char", "backward-delete-char", "backward-kill-word", "backward-kill-line", "unix-word-rubout", "backward-char", "backward-char", "beginning-of-line", "end-of-line", "undo", "delete-char", "unix-line-discard"])])
                if sc[-1][1] in ("unix-line-discard", "backward-kill-line"): goal = ""
        return sc
    def lists(self, rng):
        sc = self.setup(rng, "AB")
        texts = [l[1] for l in sc if l[0] == "hist"] or ["dir foo", "foo bar"]
        sc += self.rules(rng, texts, rng.choice([2, 5, 20]))
        for k in range(8):
            t = rng.choice(texts) if rng.random() < .8 else self.text(rng)
            a = rng.randint(0, len(t)); t = t[a if rng.random() < .3 else 0:][:rng.randint(1, 6)]
            t = t.lstrip() or "f"
            sc.append(["list", t, max(t.rfind(" ") + 2, 1)])
        return sc
CHECK = C19()
