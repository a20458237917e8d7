"""Completing a word."""
from vlib import Check
class C20(Check):
    id, module, spec, cfg = "C20", "complete", "CompleteTrace.tla", "CompleteTrace.cfg"
    mc = {"quick": [("MCComplete.tla", "MCComplete.cfg")], "thorough": [("MCComplete.tla", "MCCompleteT.cfg")]}
    technique = "TLA+ specification of the completion commands model-checked by TLC; random completion sessions in the real line editor validated against it after each command"
    level_note = "What completing makes of a line is checked over all small lines, candidates and settings; the real editor must follow the specification on generated sessions."
    assumptions = ["ASCII names without wildcard characters; candidates offered in their given order (sorting and selection: C10)"]
    COMMANDS = ["complete", "complete", "complete", "old-menu-complete", "old-menu-complete", "old-menu-complete-backward", "menu-complete", "menu-complete", "menu-complete-backward", "insert-completions"]
    STEM = ["fo", "fo", "Fo", "a", "z-b", "z_b", "di", "b a", "c&", "fo b"]
    END = ["o", "ob", "o bar", "o,x", "o&y", "", ".txt", "OB", "o=1", "o'c", "-x", "_x", " ", "a b c", "(1)", "ob.x", "o\\in", "o%z", "~", "o+"]
    WORDS = ["foo", "foo bar", "Foo", "fob", "foo b c", "a", "ab", "zed"]
    def scenarios(self, rng, tier):
        return [self.session(rng) for k in range(1200 * (1 if tier == "quick" else 25))]
    def session(self, rng):
        sc = [["reset", rng.choice([0, 1, 1, 2]), rng.choice([0, 0, 1]), rng.choice([1, 1, 0]), rng.choice(["", "", "", "=", ","]), rng.choice([0, 0, 0, 1]), rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 1]), rng.choice([1, 1, 1, 0])]]
        names, plain = [], rng.random() < .25
        for k in range(rng.choice([1, 2, 2, 3, 5])):
            if plain or rng.random() < .2: m, t = rng.choice(self.WORDS), rng.choice([2, 3, 4, 5])
            else:
                m, t = rng.choice(self.STEM) + rng.choice(self.END), rng.choice([6, 6, 7])
                if t == 7: m = m.rstrip("\\") + "\\"
            if sc[0][6] == 1: m = m.replace("&", "-") # (Unquoted, it would begin a command.)
            if m not in names: names.append(m); sc.append(["match", m, t, rng.choice(["", "", "", ",", ":"]), rng.choice([-1, -1, -1, 0, 1])])
        for k in range(rng.randint(2, 5)):
            w = rng.choice(names); w = w[:rng.choice([0, 1, 1, 2, 2, 3, 4, len(w)])]
            if rng.random() < .25: w = w.swapcase()
            if rng.random() < .1: w = w.replace("-", "_")
            if rng.random() < .05: w = "q"
            special = any(c in " &()[]{}^=;!%'+,`~" for c in w)
            r = rng.random()
            if special or r < .25: w = '"' + w; w += '"' if rng.random() < .15 else ""
            elif r < .35 and len(w) > 1: p = rng.randint(1, len(w) - 1); w = (w[:p] + '"' + w[p:]) if rng.random() < .5 else ('"' + w[:p] + '"' + w[p:])
            after = rng.choice(["", "", "", "", " y", ' "y z"', '" y' if w.count('"') % 2 else " fo", w[-1:].replace('"', "")])
            sc.append(["line", rng.choice(["x ", "x ", "x a b ", 'x "p q" ']) + w + after, len(after)])
            c = rng.choice(self.COMMANDS)
            for n in range(rng.choice([1, 1, 2, 3, 5])):
                sc.append(["cmd", c])
                if c in ("complete", "insert-completions") and rng.random() < .3: sc.append(["cmd", "undo"]); break
                if rng.random() < .2: c = c[:-9] if c.endswith("-backward") else c + "-backward" if "menu" in c else rng.choice(self.COMMANDS)
        return sc
CHECK = C20()
