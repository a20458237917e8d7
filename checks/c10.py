"""Completion matches: generate, select by the typed word, sort, common beginning."""
from vlib import Check
class C10(Check):
    id, module, spec, cfg = "C10", "matches", "MatchesTrace.tla", "MatchesTrace.cfg"
    mc = {"quick": [("MCMatches.tla", "MCMatches.cfg")], "thorough": [("MCMatches.tla", "MCMatchesT.cfg")]}
    technique = "TLA+ specification of the match pipeline model-checked by TLC; the real pipeline's visible matches after each operation validated against it"
    level_note = "The specification's selection rules are checked on all small match sets and words; the real pipeline must show exactly what the specification selects, in an order it allows."
    assumptions = ["names without doubled separators after a wildcard; at most ten wildcards; no tilde; not menu-complete; sort order checked for letters, digits, '-' prefixes as Wine collates them"]
    TYPES = [1, 2, 3, 4, 5, 6, 7]
    def scenarios(self, rng, tier):
        r = [self.gen(rng, k) for k in range(150 if tier == "quick" else 3500)]
        for n in (300, 40000, 65535, 65536, 70001):
            r[rng.randrange(len(r))].append(["bulk", n])
        return r
    def name(self, rng, style):
        if style == "plain":
            return "".join(rng.choice("abAB12") for _ in range(rng.randint(1, 4)))
        if style == "dash":
            return rng.choice(["-", "--", "---", "/", ""]) + "".join(rng.choice("ab-c") for _ in range(rng.randint(1, 3)))
        if style == "path":
            return rng.choice(["sub", "dd", "ff", "SUB", "sub\\in", "sub/in", "sub\\gg", "sub/gg", "sub\\", "dd/", "xx", "a\\b", "a/b\\c", "a/b/", "sub/zz", ".h", "sub\\.h", "sub/.h\\", "..", "sub\\in\\"])
        if style == "odd":
            return "".join(rng.choice(["a", "b", "-", "_", ".", "\u00e9", "\u00c9", "e", "\u00e8", "E", "\u4e2d", "\u00e4", "A"]) for _ in range(rng.randint(1, 4)))
        return rng.choice(["foo", "foobar", "fooBar", "FOO", "food", "bar", "barfoo", "file1", "file2", "file10", "File3", "foo-bar", "foo_bar", "a b", "x"])
    def gen(self, rng, k):
        b = lambda p: rng.random() < p
        sc = [["reset", b(.5), b(.5), rng.choice(["before", "with", "after"]), b(.7), b(.7), b(.4), rng.choice([0, 1, 1, 2]), b(.4), rng.choice(["off", "system", "slash", "backslash", "auto", "auto"])]]
        styles = rng.choice([["plain"], ["dash", "plain"], ["path"], ["path", "word"], ["odd"], ["word"], ["word", "odd", "path"]])
        names = []
        for _ in range(rng.randint(0, 14)):
            n = self.name(rng, rng.choice(styles)) if not names or b(.85) else rng.choice(names)
            names.append(n)
            t = rng.choice([1, 1, 1, 2, 3, 4, 5, 6, 7, 6, 7])
            if b(.15): t |= 0x8000
            if b(.15): t |= 0x40
            if b(.1): t |= 0x100
            sc.append(["item", n, t, rng.choice(["", "", "disp"]), rng.choice(["", "", "", "desc", "other"])])
        if b(.08): sc.append(["item", "", 2, "", ""])
        sc.append(["gopt", b(.3), rng.choice([-1, -1, -1, 0, 1]), b(.15)])
        words = names or ["x"]
        def needle():
            w = rng.choice(words)
            r = rng.random()
            if r < .2: return ""
            if r < .55: s = w[:rng.randint(0, len(w))]
            elif r < .7: s = w[rng.randint(0, len(w) - 1) if w else 0:]
            elif r < .8: s = self.name(rng, rng.choice(styles))
            else:
                cut = rng.randint(0, len(w))
                s = w[:cut] + rng.choice(["*", "?", "*?", "**", "?*"]) + (w[rng.randint(cut, len(w)):] if b(.6) else "")
                if b(.3): s = rng.choice(["*", "?"]) + s
            if b(.3): s = s.swapcase()
            if b(.2): s = s.replace("/", "\\") if b(.5) else s.replace("\\", "/")
            if b(.1): s = s.replace("-", "_")
            return s.replace("~", "")
        def sepsafe(s): # separators doubled in the word only when there is no wildcard
            if not any(c in s for c in "*?") and b(.1): s = s.replace("/", "//").replace("\\", "\\/")
            return s
        for g in range(rng.randint(1, 3)):
            sc.append(["gen", rng.choice(["", "x", "sub/x", "sub\\x", "a/b\\", "\\"]), b(.3)])
            if b(.1): sc.append(["iter", needle()])
            for _ in range(rng.randint(1, 7)):
                r = rng.random()
                if r < .5:
                    sc.append(["select", sepsafe(needle())]); sc.append(["sort"])
                    if b(.5): sc.append(["lcd"])
                elif r < .6: sc.append(["select", needle()])
                elif r < .7: sc.append(["restrict", sepsafe(needle() + rng.choice(["", "*", "*"]))])
                elif r < .74: sc.append(["keep"] + rng.sample(words, min(len(words), rng.randint(0, 3))))
                elif r < .84: sc.append(["iter", needle() + rng.choice(["", "*", "*"])])
                elif r < .9: sc.append(["lcd"])
                elif r < .94: sc.append(["copy"])
                elif r < .97: sc.append(["select", ""]); sc.append(["late", self.name(rng, rng.choice(styles))])
                else: sc.append(["sort"])
        return sc
    def transform(self, events):
        dec = lambda s: s.encode("latin-1").decode("utf-8", "replace")
        u = lambda s: [c if 32 <= ord(c) < 127 or c == "\t" else "u%02x" % ord(c) for c in dec(s)]
        out = []
        for e in events:
            e = dict(e)
            for k in ("m", "w", "needle", "left", "lcd", "pat", "acc"):
                if k in e: e[k] = u(e[k])
            if "list" in e: e["list"] = [u(x) for x in e["list"]]
            if "res" in e: e["res"] = [u(x) for x in e["res"]]
            if "vis" in e: e["vis"] = [dict(x, m=u(x["m"])) for x in e["vis"]]
            out.append(e)
        return out
CHECK = C10()
