"""Directory shortcuts."""
from vlib import Check
class C18(Check):
    id, module, spec, cfg = "C18", "intercept", "ShortcutsTrace.tla", "ShortcutsTrace.cfg"
    mc = {"quick": [("MCShortcuts.tla", "MCShortcuts.cfg")], "thorough": [("MCShortcuts.tla", "MCShortcutsT.cfg")]}
    technique = "TLA+ specification of which lines change the directory, and to where, model-checked by TLC over all short lines; generated lines run through the real code and validated against it"
    level_note = "The meaning of every line up to a length is checked against independent statements; the real code must agree with the specification on generated lines."
    assumptions = ["directories are local; Wine's file system"]
    def scenarios(self, rng, tier):
        n = 1 if tier == "quick" else 25
        return [self.lines(rng) for k in range(160 * n)] + [self.visits(rng) for k in range(20 * n)]
    NAMES = ["a", "a\\b", "a/b", "a\\b\\c d", "c d", "md", "md\\a", "e,f", "p%q", "x.y", "home", "g^h", "k+", "file", "nope", "A", "a\\nope", ".", "..", "...", "....", "~", "cd", "echo", "call", "CD", "pushd"]
    def word(self, rng):
        r = rng.random()
        if r < .12: return "".join(rng.choice("....\\/") for _ in range(rng.randint(1, 6)))
        if r < .2: return rng.choice(["%VV%", "%ww%", "%NOPE%", "%VV", "%%", "x%VV%", "%VV%\\b", "%VV%%VV%", "%", "~\\%VV%"]) + rng.choice(["\\", "/", ""])
        parts = [rng.choice(self.NAMES) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        t = rng.choice(["\\", "\\", "/", "\\\\"]).join(parts) + rng.choice(["\\", "\\", "\\", "/", "", "\\\\", ".", " "])
        if rng.random() < .08: t = "~" + rng.choice(["\\", "/", "\\\\", ""]) + t
        if rng.random() < .06: t = rng.choice(["\\", "c:", "z:\\", "Z:", "%s\\" ]).replace("%s", "@ROOT@") + t
        return t
    def line(self, rng):
        r = rng.random()
        if r < .12: return rng.choice(["", "", " ", "\t"]) + rng.choice(["cd", "chdir", "CD", "cdx", "c", "", "", "pushd"]) + rng.choice(["", " ", " ", "\t "]) + rng.choice(["", "", "/d", "/D ", "/d ", "/d\t", "/ d "]) + rng.choice(["-", "-", "--", "- ", "-\t ", "-x", "- x", "\"-\"", "-\\"])
        t = self.word(rng)
        q = rng.random()
        if q < .35 or (q < .8 and " " in t): t = '"' + t + rng.choice(['"', '"', '"', "", '"x', '"\\', '" '])
        elif q < .45: k = rng.randint(0, len(t)); e = rng.randint(k, len(t)); t = t[:k] + '"' + t[k:e] + '"' + t[e:]
        for _ in range(rng.choice([0, 0, 0, 0, 1, 2])):
            k = rng.randint(0, len(t)); t = t[:k] + rng.choice('^^"@()&+=;,<|> \t%.\\/~-') + t[k:]
        return rng.choice(["", "", "", " ", "\t "]) + t + rng.choice(["", "", "", " ", " \t", " x"])
    def lines(self, rng):
        sc = [["reset", ""]]
        for k in range(20):
            if k % 7 == 0: sc.append(["cwd", rng.choice(["", "", "a", "a\\b", "home", "md"])])
            sc.append(["line", rng.choice([0, 0, 0, 1, 2]), self.line(rng)])
        for k in range(2): sc.append(["make", rng.choice(["a", "c:\\x", "Z:\\q r\\", "z:", "\\\\srv\\x", "d:foo", ""])])
        return sc
    def visits(self, rng):
        sc = [["reset", rng.choice(["add", "erase_prev"])], ["prev"]]
        some = rng.sample(["", "a", "a\\b", "c d", "md", "home", "x.y", "A", "a\\B"], rng.randint(2, 6))
        n = rng.choice([8, 8, 8, 8, 130])
        for k in range(n):
            sc += [["cwd", rng.choice(some)]] * rng.choice([1, 1, 1, 0]) + [["prompt"]]
            if n < 100 or k > 95: sc += [["prev"]] + [["dirs"]] * (n < 100 or k % 8 == 0)
        return sc
CHECK = C18()
