"""History expansion: random remembered lines and lines that refer to them."""
from vlib import Check
class C21(Check):
    id, module, spec, cfg = "C21", "expand", "ExpandTrace.tla", "ExpandTrace.cfg"
    mc = {"quick": [("MCExpand.tla", "MCExpand.cfg"), ("MCExpand.tla", "MCExpandS.cfg")], "thorough": [("MCExpand.tla", "MCExpandT.cfg"), ("MCExpand.tla", "MCExpandST.cfg")]}
    technique = "TLA+ specification of history expansion model-checked by TLC against declarative properties; the real expansion validated against it on generated histories and lines"
    level_note = "The specification is checked on every line up to a length over an alphabet of designators; the real code's result, preview and effects must equal the specification's on generated histories and lines."
    assumptions = ["lines are UTF-8 text without control characters; word numbers stay below 36, except in the known finding"]
    WORDS = ["git", "commit", "-m", "\"fix bug\"", "'a b'", "foo.txt", "c:\\dir\\file.c", "src/a/b.tar.gz", "2>&1", ">out", "|", "&&", "&", ";", "(x)", "$(a b)", "x", "xx", "aab",
             "abab", "foo", "foobar", "1", "12", "3>f", "`q r`", "\"un", "it's", "<<-", ">(p q)", "\u00e9t\u00e9", ".hid", "a.", "!", "a!b", "<&3-", "&>", ">|", "$(", "*(", "a\\", "\\\"b"]
    def known(self):
        return {"word-36": [["reset", "on"], ["add", "w " + " ".join("a%d" % k for k in range(1, 40))], ["expand", "!!:36"]]}
    def fixed(self):
        return [
            # once in each word
            [["reset", "on"], ["add", "aab aab"], ["expand", "!!:Gs/a/x/"], ["expand", "!!:Gs/aa/x/"], ["expand", "!!:Gs/a/xyz/"], ["expand", "!!:gs/a/x/"]],
            [["reset", "on"], ["add", "a aa aaa b"], ["expand", "!!:Gs/a//"], ["expand", "!!:Gs/a/aa/"], ["expand", "!!:Gs/aa/b/"]],
            # not expanded when off
            [["reset", "off"], ["add", "foo"], ["expand", "^foo^bar^"], ["expand", "!!"], ["expand", "!foo ^x"]],
            # what was found before does not outlive a change of the lines
            [["reset", "on"], ["add", "foo one"], ["add", "bar"], ["expand", "!foo"], ["replace", 0, "zed"], ["expand", "!foo"]],
            [["reset", "on"], ["add", "foo one"], ["add", "bar"], ["show", "!foo"], ["remove", 0], ["add", "foo two"], ["expand", "!foo"]],
            [["reset", "on"], ["add", "bar"], ["show", "!foo"], ["remove", 0], ["add", "foo two"], ["expand", "!foo"]],
        ]
    def scenarios(self, rng, tier):
        n = 900 if tier == "quick" else 20000
        return self.fixed() + [self.gen(rng) for _ in range(n)]
    def hist(self, rng):
        r = rng.random()
        if r < 0.1: return "".join(rng.choice("ab 12\"'`&|;()<>$!*?-\\./") for _ in range(rng.randint(0, 14)))
        return rng.choice([" ", " ", "", "  "] if r < 0.2 else [""]) + rng.choice([" ", " ", " ", "  "]).join(rng.choice(self.WORDS) for _ in range(rng.randint(1, 6)))
    def piece(self, rng, lines):
        l = rng.choice(lines) if lines and rng.random() < 0.85 else "zz top"
        n = len(lines)
        a, b = sorted((rng.randint(0, max(len(l) - 1, 0)), rng.randint(0, len(l))))
        ev = rng.choice(["!!", "!!", "!!", "!", "!", "!%d" % rng.randint(0, n + 1), "!-%d" % rng.randint(0, n + 1), "!" + l[:rng.randint(1, 5)], "!" + l[:3], "!?" + l[a:b], "!?" + l[a:min(b, a + 3)] + "?", "!?" + l[a:a + 2] + "?",
                         "!#", "!??", "!?"])
        num = lambda: str(rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 9]))
        wd = rng.choice(["", "", "", ":" + num(), "^", "$", "*", ":^", ":$", ":*", ":%", "%", ":" + num() + "-" + num(), ":" + num() + "-", ":" + num() + "*", ":" + num() + "-$", ":" + num() + "-^",
                         ":-" + num(), "-" + num(), ":-", "-", "-$", "-^", "^-" + num(), ":" + num() + "^", ":^^", "^-$", "^*", "^-"])
        md = ""
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
            md += self.modifier(rng, l)
        return ev + wd + md
    def modifier(self, rng, l):
        m = rng.choice(["h", "t", "r", "e", "p", "q", "x", "s", "s", "s", "s", "&", "&", "z", "", "gh"])
        if m in ("s", "&"): m = rng.choice(["", "", "", "g", "a", "G", "G"]) + m
        if m.endswith("s"):
            d = rng.choice(["/", "/", "/", ";", ",", "^", "a", " ", ":", "\\"])
            a = rng.randint(0, max(len(l) - 1, 0))
            old = rng.choice(["", "a", "b", "aa", "o", "x", ".", "xx", l[a:a + rng.randint(1, 4)], l[a:a + 2], "no such"]).encode().decode("ascii", "ignore")
            if "G" in m: old = "".join(c for c in old if c.isalnum()) or "a"
            if d in "/,;" and rng.random() < 0.9: old = old.replace(d, "\\" + d)
            new = rng.choice(["", "y", "yy", "&", "<&>", "\\&", "a&b\\&", "xyz", "a b", "\\" + d, "\"", "'", "!", "^", "a", "aa"])
            m += d + old + rng.choice([d, d, d, d, ""]) 
            if m.endswith(d) and rng.random() < 0.95: m += new + rng.choice([d, d, d, ""])
        return ":" + m
    def line(self, rng, lines):
        r = rng.random()
        if r < 0.12:
            return "^" + rng.choice(["a", "foo", "x", "", "b", "o", "no"]) + rng.choice(["", "^", "^", "^"]) + rng.choice(["", "bar", "y", "&&", "\\^"]) + rng.choice(["", "", "^", "^ z", "^:p", "^:h", "^ !$", "^!#"])
        if r < 0.25:
            return "".join(rng.choice("!!!!aab012:^$*-%#?/sgh\"' &=\\") for _ in range(rng.randint(1, 12)))
        if r < 0.35 and lines:
            # several searches, and the word found last
            out = []
            for _ in range(rng.randint(2, 4)):
                l = rng.choice(lines); k = rng.randint(0, max(len(l) - 1, 0))
                out.append(rng.choice(["!?" + l[k:k + rng.randint(1, 3)] + "?" + rng.choice(["%", ":%", ":%", ":0", "", ":s//z/", ":h"]), "!??" + rng.choice(["%", ":1", ""]), "!%", "!:%", "!!:%", "!%:s//y/", "!" + l[:2] + ":%"]))
            return rng.choice(["", "x "]) + rng.choice([" ", " ", "", "/"]).join(out)
        s = rng.choice(["", "", "echo ", "a b ", "\"", "'", "it's ", "x=", "say \"hi\" ", "\\", "\u00e9 "])
        for k in range(rng.choice([1, 1, 1, 2, 2, 3])):
            if k: s += rng.choice([" ", " ", "", "\"", "'", " x ", "/", " | ", "\" \"", "' '"])
            s += self.piece(rng, lines)
        return s + rng.choice(["", "", "", "\"", "'", " end", "=", "!", " !", "!\"", "! x", "!=", "!'"])
    def gen(self, rng):
        mode = lambda: rng.choice(["on", "on", "on", "not_quoted", "not_quoted", "not_squoted", "not_dquoted", "off"])
        sc, lines = [["reset", mode()]], []
        for _ in range(rng.randint(0, 6)):
            lines.append(self.hist(rng)); sc.append(["add", lines[-1]])
        last = None
        for _ in range(25):
            if rng.random() < 0.12:
                k = rng.randint(0, len(lines))
                op = rng.choice(["add", "add", "remove", "replace", "mode", "pos", "words"])
                if op == "add": lines.append(self.hist(rng)); sc.append(["add", lines[-1]])
                elif op == "remove":
                    sc.append(["remove", k])
                    if k < len(lines): del lines[k]
                elif op == "replace":
                    t = self.hist(rng); sc.append(["replace", k, t])
                    if k < len(lines): lines[k] = t
                elif op == "mode": sc.append(["mode", mode()])
                elif op == "pos": sc.append(["pos", k])
                else: sc.append(["words", self.hist(rng)])
            t = last if last is not None and rng.random() < 0.2 else self.line(rng, lines)
            last = t
            sc.append(["show" if rng.random() < 0.4 else "expand", t])
        return sc
    def transform(self, events):
        u = lambda s: [c if 32 <= ord(c) < 127 or c == "\t" else "\n" if c == "\n" else "u%02x" % ord(c) for c in s]
        out = []
        for e in events:
            e = dict(e)
            for k in ("t", "out"):
                if k in e: e[k] = u(e[k])
            for k in ("words", "lines"):
                if k in e: e[k] = [u(x) for x in e[k]]
            if "list" in e: e["list"] = [dict(x, t=u(x["t"])) for x in e["list"]]
            out.append(e)
        return out
CHECK = C21()
