"""The screen while a line is edited: prompt, input line, right prompt, cursor."""
import re
from vlib import Check, CheckError
GLYPH = {"\u5b57": "Wa", "\u754c": "Wb", "\u8a9e": "Wc", "\u00e9": "e'", "\u00c9": "E'", "\u2502": "bar", "\ufffd": "bad"}
def cells(ch):
    g = GLYPH.get(ch, ch if " " <= ch <= "~" else None)
    if g is None: raise CheckError("unexpected character in the output: %r" % ch)
    return [g, ""] if g[0] == "W" and len(g) == 2 else [g]
def char(ch):
    # a character of the input line, as it is displayed
    if ch == "\n": return ["nl"]
    if ord(ch) < 32: return ["^", chr(ord(ch) + 64)]
    if ord(ch) == 127: return ["^", "?"]
    return cells(ch)
TOKEN = re.compile(r"\x1b\[(\?)?([0-9;]*)([A-Za-z@])|\x1b\](.*?)(?:\x07|\x1b\\)|([^\x00-\x1f]+)|([\r\n\x08\x07]|\x1bg)", re.S)
def ops(out):
    r, at = [], 0
    for m in TOKEN.finditer(out):
        if m.start() != at: raise CheckError("unexpected output %r" % out[at:m.start()])
        at = m.end()
        q, par, fin, osc, text, ctl = m.groups()
        if text: r.append({"o": "text", "s": [c for ch in text for c in cells(ch)]})
        elif ctl: 
            if ctl not in ("\x07", "\x1bg"): r.append({"o": {"\r": "cr", "\n": "lf", "\x08": "bs"}[ctl]})
        elif osc is not None or fin == "m" or (q and fin in "hl"): pass
        else:
            ps = [int(x) if x else 0 for x in par.split(";")]
            n = ps[0]
            op = {"A": "up", "B": "down", "C": "right", "D": "left", "G": "col", "H": "pos", "K": "el", "J": "ed", "@": "ich", "P": "dch"}.get(fin)
            if op is None or q: raise CheckError("unexpected sequence %r" % m.group(0))
            if op == "ed" and n == 3: continue
            e = {"o": op, "n": n if op in ("el", "ed") else max(1, n)}
            if op == "pos": e["m"] = max(1, ps[1] if len(ps) > 1 else 1)
            r.append(e)
    if at != len(out): raise CheckError("unexpected output %r" % out[at:])
    return r
SGR = re.compile(r"\x1b\[[0-9;]*m")
CLEARS = {"clear-screen", "clear-display"}
class C15(Check):
    id, module, spec, cfg = "C15", "display", "DisplayTrace.tla", "DisplayTrace.cfg"
    mc = {"quick": [("MCDisplay.tla", "MCDisplay.cfg")], "thorough": [("MCDisplay.tla", "MCDisplayT.cfg")]}
    technique = "TLA+ specification of the terminal and of what the screen must show, model-checked by TLC; every byte the real editor writes is run through the specification's terminal and the screen compared after each key"
    level_note = "The update of a row by insertion, deletion and overwriting is checked for all pairs of short rows; the real editor's output is checked in random editing sessions."
    assumptions = ["a Windows 10 terminal of fixed size; no combining characters or emoji; suggestions, hints and colours off"]
    def scenarios(self, rng, tier):
        return [self.gen(rng) for k in range(360 if tier == "quick" else 8000)]
    def text(self, rng, style, n):
        al = {"a": "abc ", "w": "ab \u5b57\u754c", "c": "ab \x01\x02", "n": "abc \n", "v": "a\n\n", "s": "ab" + " " * 6, "m": "ab \u5b57\u00e9\x03\n\u8a9e"}[style]
        return "".join(rng.choice(al) for _ in range(n))
    def keys(self, text):
        return "".join("\x11" + c if ord(c) < 32 else c for c in text)
    def prompt(self, rng, w):
        def piece(n): return "".join(rng.choice("pqr \u5b57" if rng.random() < .1 else "pqr:") for _ in range(n))
        def color(s): return s if rng.random() < .7 else "\x1b[1;32m" + s + "\x1b[0m"
        last = rng.choice([">", ">", piece(3) + ">", piece(w - 2) + ">", piece(w - 1) + ">", piece(w) + ">", piece(w + 3) + ">", piece(2 * w + 3) + ">", ""] if rng.random() < .5 else [">", "$ "])
        pre = [color(piece(rng.choice([0, 1, 4, w - 1, w, w + 2, 2 * w]))) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
        return "\r\n".join(pre + [color(last)])
    def right(self, rng, w):
        return "" if rng.random() < .5 else "".join(rng.choice("RST") for _ in range(rng.choice([1, 3, w // 2, w - 2, w])))
    def gen(self, rng):
        w, h = rng.choice([11, 13, 14, 16, 20]), rng.choice([3, 4, 5, 8])
        mx, hz = rng.choice([0, 0, 0, 0, 1, 2, 3, 4]), "1" if rng.random() < .12 else "0"
        style = rng.choice(["a", "a", "w", "c", "n", "m", "v", "s"])
        if style == "v": mx = rng.choice([0, 1, 2, 2, 3])
        hist = [self.text(rng, "a" if style in "nvs" else style, rng.randint(1, 2 * w)).replace("\n", "").strip() or "h" for _ in range(rng.randint(0, 3))]
        sc = [["reset", str(w), str(h), str(mx), hz] + hist]
        for _ in range(rng.randint(1, 3)):
            for _ in range(rng.choice([0, 0, 1, 3])): sc.append(["print", self.text(rng, "w", rng.randint(0, w)) + "\r\n"])
            sc.append(["line", self.prompt(rng, w), self.right(rng, w)] + ([self.prompt(rng, w), self.right(rng, w)] if rng.random() < .3 else []))
            for _ in range(rng.randint(2, 14)):
                r = rng.random()
                if style == "s" and r < .3:     # Delete near the end of a line of gaps.
                    sc.append(["key", "".join(rng.choice(["a", "b", "    ", "  "]) for _ in range(rng.randint(2, 6)))])
                    sc.extend([["cmd", "backward-char"]] * rng.randint(1, 4))
                    sc.extend([["cmd", rng.choice(["backward-delete-char", "delete-char", "backward-kill-word"])]] * rng.randint(1, 2))
                elif r < .4: sc.append(["key", self.keys(self.text(rng, style, rng.choice([1, 1, 2, 3, w // 2, w - 1, w, w + 2])))])
                elif r < .62: sc.extend([["cmd", rng.choice(["backward-char", "backward-char", "forward-char", "beginning-of-line", "end-of-line", "backward-word", "forward-word"])]] * rng.choice([1, 1, 1, 2, 3]))
                elif r < .8: sc.append(["cmd", rng.choice(["delete-char", "backward-delete-char", "backward-kill-word", "kill-line", "backward-kill-line", "undo", "yank", "transpose-chars", "kill-word", "upcase-word", "revert-line"])])
                elif r < .87: sc.append(["cmd", rng.choice(["previous-history", "next-history"])])
                elif r < .92: sc.append(["cmd", rng.choice(["clear-screen", "redraw-current-line"])])
                elif r < .96: sc.append(["prompt", self.prompt(rng, w), self.right(rng, w)])
                elif style in "acnvs": sc.append(["cmd", "overwrite-mode"])
            if rng.random() < .6: sc.append(["cmd", rng.choice(["backward-char", "beginning-of-line", "end-of-line", "backward-word"])])
            sc.append(["key", "\r"])
        return sc
    def transform(self, events):
        out = []
        for e in events:
            e = dict(e)
            u = lambda s: s.encode("latin-1").decode("utf-8", "replace")
            if "out" in e: e["ops"] = ops(u(e.pop("out")))
            if "text" in e:
                raw = e["text"].encode("latin-1")
                e["pt"] = len(raw[:e["pt"]].decode("utf-8", "replace"))
                e["text"] = [char(c) for c in raw.decode("utf-8", "replace")]
                e["clear"] = e.get("c") in CLEARS
            for a in ("", "t"):
                if a + "prompt" not in e: continue
                lines = SGR.sub("", u(e.pop(a + "prompt"))).split("\r\n")
                e[a + "prefix"] = [[cells(c) for c in l] for l in lines[:-1]]
                e[a + "last"] = [cells(c) for c in lines[-1]]
                e[a + "right"] = [x for c in SGR.sub("", u(e.pop(a + "rprompt"))) for x in cells(c)]
            out.append(e)
        return out
CHECK = C15()
