"""Doskey macros: random macros and lines."""
from vlib import Check
class C08(Check):
    id, module, spec, cfg = "C08", "doskey", "DoskeyTrace.tla", "DoskeyTrace.cfg"
    mc = {"quick": [("MCDoskey.tla", "MCDoskey.cfg")], "thorough": [("MCDoskey.tla", "MCDoskeyT.cfg")]}
    technique = "TLA+ specification of macro expansion model-checked by TLC against declarative properties; the real doskey validated against it on generated macros and lines"
    level_note = "The specification is checked on every line up to a length over a small alphabet; the real code's output must equal the specification's on generated lines."
    assumptions = ["the console's macro table is a stand-in (Wine has none); lines are UTF-8 text without control characters"]
    NAMES = ["a", "foo", "ls", "(p", "x)", "q\"r", "a|b", "a&b", "n>m", "n>&m", "A1", "..", "\u00e9t", "foo>", "@at", "g/"]
    TEXTS = ["bar", "echo $*", "x $1 y", "c \"$*\" d", "$1$2$3 $9", "p $* q", "e$tf $1", "$t", "$g$l$b$$ $G", "\"$1\" | m", "$z $0", "end$", "one $T two $t three $*", "k '$2'",
             "\u4e2d $* \u00e9", "a b c d e f", "$$1", "\"$$\" $1", "foo $*", "$*$*", "w$1 w$10 "]
    def scenarios(self, rng, tier):
        n = 240 if tier == "quick" else 800
        return [self.gen(rng, k) for k in range(n)]
    def text(self, rng):
        if rng.random() < 0.5: return rng.choice(self.TEXTS)
        r = "".join(rng.choice(["$", "$$", "$1", "$2", "$9", "$*", "$*", '"', '"', "|", "&", " ", " ", "a", "b1", "$t", "$G", "$x", ">", "'", "1", "*"]) for _ in range(rng.randint(1, 9)))
        return r.strip() or "x"
    def line(self, rng, names):
        r = rng.random()
        if r < 0.35:
            return "".join(rng.choice("aab  \"|&()>^;@f12") for _ in range(rng.randint(1, 14)))
        w = lambda: rng.choice(names + ["foo", "x", "\"q r\"", "\"un", "^&", "^|", "2>&1", ">out", "arg", "a\"b c\"d", "\u00e9", "(", ")", "x)", "/f", "bar)"] + ["w%d" % k for k in range(12)])
        s = rng.choice(["", "", "", " ", "  ", "(", "((", "( ", "@", "@(", ";", "(@ "])
        for c in range(rng.randint(1, 3)):
            if c: s += rng.choice(["|", "&", "&&", "||", " & ", " | ", "&  ", "| ", "&;", "& (", "|(", " && ( ", "|&", "&& "])
            s += rng.choice(names) if rng.random() < 0.75 else w()
            s += rng.choice(["", " ", "  "])
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 11])):
                s += w() + rng.choice([" ", "  ", "", " "])
        s += rng.choice(["", "", "", ")", " )", "))", ") ", " ) )", ")x", "^"])
        return s
    def gen(self, rng, k):
        sc = [["reset", rng.random() < 0.7]]
        names = rng.sample(self.NAMES, rng.randint(1, 5))
        for n in names:
            sc.append(["alias", n, self.text(rng)])
        for _ in range(30):
            l = self.line(rng, names)
            sc.append(["resolve", l, rng.randint(0, len(l.encode()))])
            if rng.random() < 0.06:
                n = rng.choice(names)
                sc.append(["alias", rng.choice([n, n.upper()]), self.text(rng)] if rng.random() < 0.7 else ["unalias", n])
        return sc
    def transform(self, events):
        # Text as sequences of bytes (one character each; non-ASCII named).
        u = lambda s: [c if 32 <= ord(c) < 127 or c == "\t" else "\n" if c == "\n" else "u%02x" % ord(c) for c in s]
        out = []
        for e in events:
            e = dict(e)
            for k in ("n", "t"):
                if k in e: e[k] = u(e[k])
            for k in ("out", "out2"):
                if k in e: e[k] = [u(x) for x in e[k]]
            out.append(e)
        return out
CHECK = C08()
