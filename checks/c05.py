"""Typed values: every spelling, from every prior value; formatting and parsing are inverse."""
from settings_common import *
import itertools
class C05(SettingsCheck):
    id = "C05"
    mc = {"quick": [("MCSettingValues.tla", "MCSettingValues.cfg")], "thorough": [("MCSettingValues.tla", "MCSettingValuesT.cfg")]}
    technique = "TLA+ specification of parsing and formatting typed values, model-checked by TLC (round trips on all word sequences up to a length); the real parsers validated against it"
    level_note = "Round trips are checked on the specification for all sequences of colour words up to a length; the real code must agree with the specification on generated texts and all short ones."
    assumptions = ["numbers have at most nine digits", "option names are ASCII and none is empty"]
    def scenarios(self, rng, tier):
        q = tier == "quick"
        r = []
        colors = [gen_color(rng) for _ in range(1600 if q else 30000)] + VALUES["color"]
        words = ["bold", "bright", "on", "default", "red", "#fff", "reverse", "underline", "italic", "nobold"]
        allw = [" ".join(x) for k in range(1, 4) for x in itertools.product(words, repeat=k)]
        colors += rng.sample(allw, 500) if q else allw
        for k in range(0, len(colors), 50):
            r.append([["reset"]] + [["color", c] for c in colors[k:k + 50]])
        al = "01aonfTruey -x"
        for _ in range(40 if q else 800):
            ds = rng.sample(DYN[:11], 4)
            sc = [["reset"], ["load"]] + [["reg", d[0], d[1], d[2], d[3], d[4]] for d in ds]
            for _ in range(20):
                d = rng.choice(ds)
                if d[1] == "color": v = gen_color(rng)
                elif rng.random() < 0.6: v = rng.choice(VALUES[d[1]])
                elif d[1] == "enum":
                    o = rng.choice(d[2].split(",")); v = rng.choice([o.upper(), o.lower(), o[:-1], o + "x", o + " ", " " + o, d[2], str(rng.randint(0, 5)), o + ","])
                else: v = "".join(rng.choice(al) for _ in range(rng.randint(0, 6)))
                sc.append(["set", d[0], v])
                if rng.random() < 0.1: sc.append(["clear", d[0]])
            r.append(sc)
        inis = []
        for _ in range(60 if q else 1000):
            t = ""
            for _ in range(rng.randint(0, 9)):
                t += rng.choice(["[set]", "[clear]", "[preferred]", "[SET] ; x", "[other]", " [set]", "# c", "; c", "", "  "] + ["a.b=1", "c = x y ", " d= ", "color.x = sgr 1", "e", " f ", "= 5", "g=h=i"] * 2) + rng.choice(["\n", "\r\n"])
            inis.append(["ini", t])
        r += [[["reset"]] + inis[k:k + 20] for k in range(0, len(inis), 20)]
        return r
CHECK = C05()
