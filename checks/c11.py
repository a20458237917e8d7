"""Editing the input line: text, cursor, selection, undo, kills, clipboard, history lines."""
from vlib import Check
MOVE = ["forward-char", "backward-char", "beginning-of-line", "end-of-line", "forward-word", "backward-word"]
CUA = ["cua-forward-char", "cua-backward-char", "cua-forward-word", "cua-backward-word", "cua-forward-bigword", "cua-backward-bigword",
       "cua-beg-of-line", "cua-end-of-line", "cua-select-all", "cua-select-word"]
CUT = ["cua-copy", "cua-cut", "clink-paste", "clink-paste", "clink-copy-line"]
DEL = ["delete-char", "backward-delete-char", "forward-backward-delete-char", "delete-horizontal-space"]
KILL = ["kill-line", "backward-kill-line", "unix-line-discard", "kill-whole-line", "kill-word", "backward-kill-word", "unix-word-rubout", "unix-filename-rubout"]
CASE = ["upcase-word", "downcase-word", "capitalize-word", "transpose-chars", "transpose-words"]
HIST = ["previous-history", "previous-history", "next-history", "beginning-of-history", "end-of-history"]
COUNTED = set(MOVE + CUA + DEL + CASE + ["kill-word", "backward-kill-word", "unix-word-rubout", "unix-filename-rubout", "undo", "previous-history", "next-history"])
class C11(Check):
    id, module, spec, cfg = "C11", "editor", "EditorTrace.tla", "EditorTrace.cfg"
    mc = {"quick": [("MCEditor.tla", "MCEditor.cfg")], "thorough": [("MCEditor.tla", "MCEditorT.cfg")]}
    technique = "TLA+ specification of the line editor's commands model-checked by TLC; every command run through the real editor and its line, cursor, selection, clipboard and history position validated against it"
    level_note = "The specification's undo, kill and history rules are checked over all short command sequences; the real editor must follow it in random sessions."
    assumptions = ["default (emacs) editing mode; the mark is used in ASCII lines only"]
    def scenarios(self, rng, tier):
        return [self.gen(rng, k) for k in range(400 if tier == "quick" else 12000)]
    def word(self, rng, style):
        if style == "wide": return "".join(rng.choice(["a", "b", "\u00e9", "\u00c9", "\u4e2d", "\u0250", "\u2c6f", "-", "1", "e\u0301", "Z", "\U0001f600"]) for _ in range(rng.randint(1, 4)))
        return "".join(rng.choice("abcXYZ1") for _ in range(rng.randint(1, 4)))
    def text(self, rng, style):
        seps = rng.choice([" ", " ", "  ", "\\", "/", "-", ".", "\t", " - ", "//", ' "'] if style != "type" else [" ", "\\", " -", "/", "  "])
        return seps.join(self.word(rng, style) for _ in range(rng.randint(1, 3))) + rng.choice(["", "", seps])
    def clip(self, rng, style):
        if rng.random() < .8: return self.text(rng, style)
        return "".join(rng.choice([self.word(rng, style), self.text(rng, style), "\n", "\r\n", "\r", "\n\n"]) for _ in range(rng.randint(2, 6)))
    def gen(self, rng, k):
        style = rng.choice(["ascii", "wide"])
        typed = lambda: self.text(rng, style).replace("\t", " ")
        sc = [["reset"] + [self.text(rng, style).strip() or "x" for _ in range(rng.randint(0, 4))]]
        groups = rng.choice([[MOVE, CUA, CUT, DEL], [MOVE, KILL, ["yank", "yank", "yank-pop"]], [CUA, CUT, KILL], [MOVE, DEL, CASE], [HIST, MOVE, DEL, KILL], [HIST, HIST, CUA, CUT, ["clink-reset-line"]],
                             [MOVE, CUA, CUT, DEL, KILL, CASE, HIST, ["yank", "yank-pop", "clink-reset-line", "clink-insert-dot-dot", "accept-line", "revert-line", "overwrite-mode"]]])
        if rng.random() < .4: sc.append(["crlf", rng.choice(["delete", "space", "ampersand"])])
        mark = style == "ascii" and rng.random() < .5
        def cmd(c, p=.2):
            e = ["cmd", c]
            if c in COUNTED and rng.random() < p: e.append(rng.choice([1, 2, 2, 3, 4, 11] if c != "undo" else [1, 2, 3]))
            sc.append(e)
        over = False
        for _ in range(rng.randint(5, 40)):
            r = rng.random()
            if r < .22: sc.append(["type", typed() if rng.random() < .5 else self.word(rng, style)])
            elif r < .34: cmd("undo")
            elif r < .36: cmd("revert-line")
            elif r < .39: sc.append(["clip", self.clip(rng, style)])
            elif r < .41: cmd("accept-line")
            elif r < .45 and mark:
                cmd("set-mark")
                for _ in range(rng.randint(1, 3)):
                    if rng.random() < .7: cmd(rng.choice(MOVE))
                    else: sc.append(["type", self.word(rng, style)])
                cmd(rng.choice(["kill-region", "copy-region-as-kill", "exchange-point-and-mark", "kill-region"]))
                if rng.random() < .5: cmd(rng.choice(["kill-line", "kill-region", "yank"]))
            elif r < .47 and style == "ascii":
                cmd("overwrite-mode"); sc.append(["type", self.word(rng, style)]); cmd("overwrite-mode")
            elif r < .55:
                for _ in range(rng.randint(1, 3)): cmd(rng.choice(CUA))
                x = rng.random()
                if x < .3: sc.append(["type", self.word(rng, style)])
                else: cmd(rng.choice(CUT + DEL + ["kill-word", "backward-kill-word", "undo", "yank"]), .1)
            elif r < .62:
                for _ in range(rng.randint(2, 3)): cmd(rng.choice(KILL))
                if rng.random() < .7: cmd("yank")
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4, 11])): cmd("yank-pop")
            else:
                c = rng.choice(rng.choice(groups))
                if c == "overwrite-mode": continue
                cmd(c)
        for _ in range(rng.choice([0, 3, 10])): cmd("undo", 0)
        return sc
    def transform(self, events):
        raw = lambda s: s.encode("latin-1")
        def u(b): return [c if 32 <= ord(c) < 127 or c == "\t" else "u%02x" % ord(c) for c in raw(b).decode("utf-8", "replace")]
        out = []
        for e in events:
            e = dict(e)
            if "text" in e:
                t = raw(e["text"])
                ok = lambda n: n < 0 or (n <= len(t) and (n == len(t) or (t[n] & 0xc0) != 0x80))
                at = lambda n: n if n < 0 else len(t[:n].decode("utf-8", "replace")) if ok(n) else 9999
                e["pt"], e["an"], e["nul"] = at(e["pt"]), at(e["an"]), e["nul"] == len(t)
                e["text"], e["clip"], e["done"] = u(e["text"]), u(e["clip"]), [u(x) for x in e["done"]]
                e["queued"] = [u(x[:-2] if x.endswith("\r\n") else x) for x in e["queued"]]
            if "s" in e: e["s"] = u(e["s"])
            if "ring" in e: e["ring"] = [u(x) for x in e["ring"]]
            if "lines" in e: e["lines"] = [u(x) for x in e["lines"]]
            out.append(e)
        return out
CHECK = C11()
