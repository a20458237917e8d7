"""Commands and words: every short line over the significant characters, and random longer lines."""
import itertools
from vlib import Check
class C09(Check):
    id, module, spec, cfg = "C09", "words", "CmdWordsTrace.tla", "CmdWordsTrace.cfg"
    mc = {"quick": [("MCCmdWords.tla", "MCCmdWords.cfg")], "thorough": [("MCCmdWords.tla", "MCCmdWordsT.cfg")]}
    technique = "TLA+ specification of command and word splitting model-checked by TLC against declarative properties; the real word collector validated against it"
    level_note = "The specification's declarative properties are checked on all lines up to a length over a small alphabet; the real code's output must equal the specification's on generated lines."
    assumptions = ["macros come from a stand-in for the console's table; no deprecated argmatchers; words delimiter bytes are not compared"]
    WORDS = ["a", "foo", "rem", "echo", "cd", "dir", "set", "if", "REM", "r^em", "echo:", "cd\\x", "cd..", "git", "-x:y", "/a:b", "--opt=", "/x==", "2>&1", ">nul", "1>", "<in", ">>out", "2>>&1", "3>x",
             "\"q r\"", "\"un", "a\"b c\"d", "^&", "^|", "^ ", "^^", "x^", "./x", "../x", ".", "..", "./", "+", "a+b", "(", ")", "((", "@", "@1>f", "@echo", "\u00e9", "x\u00e9", "\u00ff", ">\u00ff", "1", "12", "a1", "mac", "(mac", "mac)",
             "'q'", "`b`", "{x}", "[y]", "a,b", "a;b", "a=b", "/?", "\"a\"\"b\"", "\"x\\\"", "del/q", "exit/b", "call:x", "type<f", "ver>f", "\u4e2d\u6587", ">&2", ">& ", "<&3", "mac2"]
    def scenarios(self, rng, tier):
        n = 90 if tier == "quick" else 2500
        r = [self.gen(rng, k) for k in range(n)]
        # short lines over the characters that matter, sampled or all
        al = "a1 \"^&|<>(/@:=r+"
        all_ = ["".join(x) for k in range(0, 4) for x in itertools.product(al, repeat=k)]
        more = ["".join(rng.choice(al) for _ in range(rng.randint(4, 9))) for _ in range(700 if tier == "quick" else 40000)]
        lines = (rng.sample(all_, 900) if tier == "quick" else all_) + more
        for k in range(0, len(lines), 60):
            sc = self.head(rng)
            for l in lines[k:k + 60]:
                sc.append(["words", l, rng.randint(0, len(l)), rng.random() < 0.4])
            r.append(sc)
        return r
    def head(self, rng):
        sc = [["reset", rng.random() < 0.7, rng.choice(["off", "system", "slash", "backslash", "auto"])]]
        for n in rng.sample(["mac", "(mac", "a", "r", "x>y", "rem", "echo", "a&b", "\"q"], rng.randint(0, 3)):
            sc.append(["alias", n, "text $*"])
        return sc
    def gen(self, rng, k):
        sc = self.head(rng)
        for _ in range(25):
            s = rng.choice(["", "", " ", "  ", "(", "( ", "@", "@(", "\t", ";", "=", ">x "])
            for c in range(rng.randint(1, 4)):
                if c: s += rng.choice(["&", "|", "&&", "||", " & ", " && ", " | ", "&  ", "| (", "&(", ">&", "& @", "&\t", " &"])
                for _ in range(rng.randint(0, 4)):
                    s += rng.choice(self.WORDS) + rng.choice(["", " ", " ", " ", "  ", "\t", ";", ","])
            s += rng.choice(["", "", ")", " )", ") )", " "])
            b = s.encode()
            # a cursor lies at a character boundary
            cuts = [len(s[:i].encode()) for i in range(len(s) + 1)]
            sc.append(["words", s, rng.choice(cuts + [len(b)] * 3), rng.random() < 0.5])
        return sc
    def transform(self, events):
        u = lambda s: [c if 32 <= ord(c) < 127 or c == "\t" else "u%02x" % ord(c) for c in s]
        out = []
        for e in events:
            e = dict(e)
            for k in ("n", "t"):
                if k in e: e[k] = u(e[k])
            out.append(e)
        return out
CHECK = C09()
