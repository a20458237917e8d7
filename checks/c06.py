"""Key bindings: random trees of bindings over groups, fed random keys the way the line editor does."""
from vlib import Check
class C06(Check):
    id, module, spec, cfg = "C06", "binder", "BinderTrace.tla", "BinderTrace.cfg"
    mc = {"quick": [("MCBinder.tla", "MCBinder.cfg")], "thorough": [("MCBinder.tla", "MCBinderT.cfg")]}
    technique = "TLA+ specification of binding and resolving key sequences model-checked by TLC (longest match, every key delivered once); recorded resolutions by the real binder and bind_resolver validated against it"
    level_note = "All keystroke sequences up to a length for all small binding sets in the specification; random trees and keystrokes on the real code."
    assumptions = ["a chord has at most 15 keys", "the wildcard character itself isn't typed where a parameter is expected", "no group has both a parameter and a digit at the same place", "one catch-all per group"]
    MAXN = 512
    def scenarios(self, rng, tier):
        n = 260 if tier == "quick" else 5000
        return [self.product(rng) for _ in range(n // 3)] + [self.gen(rng) for _ in range(n)] + [self.fill(rng) for _ in range(1 if tier == "quick" else 6)]
    # -- the pump of line_editor_impl::update_input
    def pump(self, rng, keys, groups, sc):
        for k in keys:
            if rng.random() < 0.05: sc.append(["setgroup", rng.choice(groups)])
            sc.append(["step", bytes([k])])
            # the driver drains after a complete sequence; draining is scripted for the worst case
            sc.append(["drain", rng.choice(["c", "c", "c", "c", "c", "c", "pc", "ppc", "gc", "gp"]), rng.choice(groups)])
    CHORDS = ["a", "b", "ab", "abc", "aba", "abab", "abac", "ba", "bb", "aab", "\\C-a", "^b", "\\M-a", "\\M-C-b", "\\e[A", "\\e[B", "\\e[1;5A", "\\eOP", "\\e", "\\t", "\\\\", "\\", "^", "\\r", "\\0", "c", "bca", "\\C", "\\M-", "\\Cx", "\\M-C-", "\\M-\\C-c", "^^", "\\ea", "", "acb", "cab", "ac\\0a", "\\C-?", "d", "dd", "ddd"]
    PCHORDS = ["\\e[$*A", "\\e[$*B", "\\e[$*;*L", "\\e[$*;*M", "$*x", "a$*;*;*b", "\\e[$*;*;*;*z"]
    def gen(self, rng):
        sc = [["reset"]]
        groups = [1]
        used = 2
        binds = {1: []}
        catch = set()
        for k in range(rng.randint(0, 2)): sc.append(["group", "g%d" % k]); 
        ng = len(sc) - 1
        groups = [1] + [3 + 2 * k for k in range(ng)]
        chords = rng.sample(self.CHORDS, rng.randint(2, 12)); pch = rng.sample(self.PCHORDS, rng.randint(0, 3))
        for _ in range(rng.randint(2, 16)):
            g = rng.choice(groups)
            if pch and rng.random() < 0.3: sc.append(["bind", g, rng.choice(pch), rng.randint(0, 3), rng.randint(1, 250), 1])
            else:
                c = rng.choice(chords)
                if c == "":
                    if g in catch: continue
                    catch.add(g)
                sc.append(["bind", g, c, rng.randint(0, 3), rng.randint(1, 250), rng.choice([0, 0, 1])])
        for g in groups:
            if rng.random() < 0.75 and g not in catch: sc.append(["bind", g, "", 3, rng.choice([254, 255]), 0])
        sc.append(["find", "g0"]); sc.append(["find", ""])
        ks = []
        al = [97, 98, 99, 100, 27, 91, 65, 49, 59, 36, 120, 1, 2, 92, 94, 9, 13]
        lits = [b"a", b"ab", b"abc", b"aba", b"ac", b"\x1b[A", b"\x1b[1;5A", b"\x1b", b"\x1ba", b"\x1b\x02", b"ba", b"dd", b"ddd", b"abab", b"\x1b[27;27~", b"bc"]
        par = [b"\x1b[$%d;%dL", b"\x1b[$%d;%dM", b"\x1b[$%d;%dZ", b"a$%d;%d;3b"]
        for _ in range(rng.randint(3, 14)):
            x = rng.random()
            if x < 0.45: ks += list(rng.choice(lits))
            elif x < 0.6: ks += list(rng.choice(par) % (rng.choice([0, 3, 12, 123]), rng.choice([0, 7, 45])))
            elif x < 0.68: ks += list(rng.choice([b"\x1b[$%dA", b"\x1b[$%dB", b"$%dx", b"$%dy"]) % rng.choice([0, 5, 42, 65536, 99999]))
            elif x < 0.7: ks += list(b"\x1b[$1234567890;12L")
            else: ks.append(rng.choice(al))
        self.pump(rng, ks, groups, sc)
        for _ in range(6):
            s = rng.choice(lits + [b"\x1b[$1;2L", b"q", b"\x01", b"\x7f", b"\x1b[Z", b"abx", b"xab"])
            sc.append(["isbound", s])
        return sc
    def product(self, rng):
        sel = ["\\t", "\\e[Z", "\\e[A", "\\e[B", "\\e[D", "\\e[C", "\\e[5~", "\\e[6~", "\\e[1;5H", "\\e[1;5F", "^h", "\\e[3~", " ", "\\r", "/", "\\", "\"", "\\eOP", "^g", "\\e", "\\e[27;2;13~", "?", "y", "^C", "^["]
        par = ["\\e[$*;*L", "\\e[$*;*D", "\\e[$*A", "\\e[$*B", "\\e[$*<", "\\e[$*;*M"]
        sc = [["reset"], ["group", "readline"], ["group", "popup"], ["bind", 1, "\\e[$*;*L", 0, 1, 1], ["bind", 1, "\\e[$*;*D", 0, 2, 1], ["bind", 1, "\\e[$*;*M", 0, 3, 1], ["bind", 1, "", 0, 4, 0], ["bind", 3, "", 0, 5, 0]]
        for k, c in enumerate(rng.sample(sel, rng.randint(3, len(sel)))): sc.append(["bind", 5, c, 1, 10 + k, 0])
        for k, c in enumerate(rng.sample(par, rng.randint(1, 6))): sc.append(["bind", 5, c, 1, 60 + k, 1])
        sc.append(["bind", 5, "", 1, rng.choice([100, 255]), 0])
        ks = []
        for _ in range(rng.randint(3, 14)):
            ks += list(rng.choice([b"x", b"q", b"\t", b"\x1b[A", b"\x1b[1;5H", b"\x1b[1;5Q", b"\x1b[3~", b"\x1b[27;27~", b"\x1b[27;2;13~", b"\x1b[27;5;9~", b"\x1bOP", b"\x1bOZ", b"\x1b[$3;44L", b"\x1b[$120;2D", b"\x1b[$2A", b"\x1b[$12<", b"\x1b[$12;3M", b"\x1b[$1;2Q", b"\x1b[$", b"\x1b", b"\xe4\xb8\xad", b"\x1b[$10;L"]))
        if rng.random() < .5: sc.append(["setgroup", 5])
        self.pump(rng, ks, [1, 3, 5], sc)
        for s in rng.sample([b"\x1b[A", b"\x1b[1;5H", b"\x1b[Z", b"\x1b[$1;2L", b"x", b"\x08", b"\x1b[5", b"\t", b"\x7f", b"\x1bOP"], 5): sc.append(["isbound", s])
        return sc
    def fill(self, rng):
        sc = [["reset"], ["group", "g"], ["group", ""]]
        for k in range(rng.randint(240, 270)): sc.append(["bind", rng.choice([1, 3]), chr(65 + k % 26) + chr(97 + k // 26) + ("z" if rng.random() < .2 else ""), 0, 7, 0])
        for k in range(6): sc.append(["group", "h%d" % k])
        for k in range(4): sc.append(["bind", 1, "\x01\x02\x03"[:k] or "q", 0, 1, 0])
        self.pump(rng, list(b"AaBbz\x01\x02\x03q"), [1, 3], sc)
        return sc
    # a fixed number of next/claim calls would not drain; the driver's drain does
CHECK = C06()
