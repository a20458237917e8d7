"""The settings file: histories of sets, clears, loads, saves, scripts coming and going, hand-edited files."""
from settings_common import *
class C04(SettingsCheck):
    id = "C04"
    mc = {"quick": [("MCSettings.tla", "MCSettings.cfg")], "thorough": [("MCSettings.tla", "MCSettingsT.cfg")]}
    technique = "TLA+ specification of settings and the settings file model-checked by TLC (a ghost records what the user chose); the real settings code's file and values validated against it after every operation"
    level_note = "The specification is checked exhaustively on small histories; the real code's whole file text and all values must equal the specification's after each operation of generated histories."
    assumptions = ["values have no line breaks", "prompt_colour migration is not covered", "numbers have at most nine digits", "files that name one script's setting twice in different case need not round-trip"]
    def scenarios(self, rng, tier):
        n = 500 if tier == "quick" else 2500
        r = self.fixed()
        r += [self.flow(rng) for _ in range(n)]
        r += [self.migrate(rng) for _ in range(n // 6)]
        return r
    def known(self):
        return {"leading-space": [["reset"], ["load"], ["reg", "cc.text", "string", "", "abc", "Text"], ["set", "cc.text", "  two"], ["save"], ["reload"]]}
    def reg(self, d): return ["reg", d[0], d[1], d[2], d[3], d[4]]
    def fixed(self):
        d = {x[0]: x for x in DYN}
        return [
            # a script's setting keeps its value however often the file is saved
            [["reset"], ["write", "settings", "bb.count = 7\ncc.text = foo\n"], ["load"], self.reg(d["bb.count"]), ["save"], ["unreg", "bb.count"], ["save"], ["load"], self.reg(d["bb.count"]), ["save"]],
            [["reset"], ["write", "defaults", "dd.enum = Zed\nbb.count = 9\naa.flag = off\ncolor.one = red\ncc.text = hi\n"], ["load"]] + [self.reg(x) for x in DYN[:11]] + [["save"], ["load"], ["clear", "dd.enum"], ["set", "dd.enum", "x"], ["save"], ["load"]],
            [["reset"], ["write", "settings", "zz.other = 1\n"], ["load"], ["file.overlay", "zz.other", "set", "2", "color.one", "set", "red"], ["load"], ["file.overlay", "zz.other", "clear", ""], ["load"]],
            [["reset"], ["load"]] + [self.reg(x) for x in DYN[:11]] + [x for y in DYN[:11] for x in (["lua.set", y[0], VALUES[y[1]][1]], ["lua.clear", y[0]])],
            [["reset"], ["load"], self.reg(d["color.one"]), self.reg(d["color.two"]), self.reg(d["cc.text"]), ["overlay", "color.one", "set", "#123456 on bright red", "color.two", "set", "sgr 0;39"], ["lua.set", "cc.text", "x"], ["lua.clear", "cc.text"], ["load"]],
        ]
    def text(self, rng, kind, names):
        nl = rng.choice(["\n", "\n", "\r\n"])
        out = ""
        style = rng.random()
        for _ in range(rng.randint(0, 7)):
            x = rng.random()
            if x < 0.1: out += rng.choice(["# comment", "  # indented", "", "   ", "no equals sign", "#"]) + nl; continue
            d = rng.choice(names)
            v = rng.choice(FILE_VALUES[d[1]])
            nm = d[0] if rng.random() < 0.95 or not self.upper else d[0].upper()
            if rng.random() < 0.06: nm, v = "clink.autoupdate", rng.choice(["True", "off", "1", "check", " yes "])
            if style < 0.12: out += nm + "  " + v.replace("=", "").replace("#", "") + nl
            else: out += rng.choice(["", "", " ", "\t"]) + nm + rng.choice([" = ", "=", " =", "   =  ", "= "]) + v + nl
        return out if rng.random() < 0.9 else out.rstrip()
    def flow(self, rng):
        sc = [["reset"], ["adopt", "clink.autoupdate"]]
        self.upper = rng.random() < 0.4     # names in another case than the setting's
        names = rng.sample(DYN, rng.randint(2, 6))
        regd = []
        if rng.random() < 0.3:
            sc.append(["adopt", "history.max_lines"]); sc.append(["adopt", "terminal.emulation"])
            extra = [("history.max_lines", "int", "", "", ""), ("terminal.emulation", "enum", "", "", "")]
        else: extra = []
        if rng.random() < 0.5: sc.append(["write", "defaults", self.text(rng, "defaults", names + extra)])
        if rng.random() < 0.7: sc.append(["write", "settings", self.text(rng, "settings", names + extra)])
        sc.append(["load"])
        def chg():
            r = []
            for d in rng.sample(names + extra, rng.randint(1, min(3, len(names)))):
                if rng.random() < 0.3: r += [d[0], "clear", ""]
                else: r += [d[0], "set", rng.choice(FILE_VALUES[d[1]])]
            return r
        dirty = False   # the default settings have changed since the last load
        for _ in range(rng.randint(4, 14)):
            if sc[-1][0] in ("write", "del"): dirty = True
            elif sc[-1][0] in ("load", "file.overlay", "lua.set", "lua.clear"): dirty = False
            x = rng.random()
            free = [d for d in names if d not in regd]
            if x < 0.25 and free:
                d = rng.choice(free); regd.append(d); sc.append(self.reg(d))
            elif x < 0.32 and regd:
                d = regd.pop(rng.randrange(len(regd))); sc.append(["unreg", d[0]])
            elif x < 0.5 and regd + extra:
                d = rng.choice(regd + extra); sc.append(["set", d[0], rng.choice(FILE_VALUES[d[1]])])
            elif x < 0.55 and regd + extra: sc.append(["clear", rng.choice(regd + extra)[0]])
            elif x < 0.63: sc.append(["load"])
            elif x < 0.73:
                sc.append(["save"])
                if not dirty and not self.upper: sc.append(["reload"])
            elif x < 0.78: sc.append(["overlay"] + chg())
            elif x < 0.86: sc.append(["file.overlay"] + chg())
            elif x < 0.92 and regd: d = rng.choice(regd); sc.append(["lua.set", d[0], rng.choice(FILE_VALUES[d[1]])])
            elif x < 0.95 and regd: sc.append(["lua.clear", rng.choice(regd)[0]])
            elif x < 0.97: sc.append(["write", rng.choice(["settings", "defaults"]), self.text(rng, "", names + extra)])
            else: sc.append(["del", rng.choice(["settings", "defaults"])])
        sc += [["load"], ["save"], ["load" if self.upper else "reload"]]
        # a session that has updated the file doesn't save its own values
        r, upd = [], False
        for l in sc:
            if l[0] in ("file.overlay", "lua.set", "lua.clear"): upd = True
            elif l[0] == "load": upd = False
            elif l[0] == "save" and upd: r.append(["load"]); upd = False
            r.append(l)
        return r
    def migrate(self, rng):
        sc = [["reset"]] + [["adopt", n] for n in BUILTIN]
        t = ""
        for n in rng.sample(["exec_match_style", "strip_crlf_on_paste", "ansi_code_support", "esc_clears_line", "history_file_lines", "ctrld_exits", "space_prefix_match_files", "terminate_autoanswer",
                             "history_ignore_space", "history_dupe_mode", "history_io", "history_expand_mode", "use_altgr_substitute", "nonsense"], rng.randint(1, 9)):
            t += f"# c\n{n if rng.random() < .9 else n.upper()} = {rng.choice(['0', '1', '2', '-1', '3', '500'])}\n"
        sc += [["write", "old", t], ["load"], ["load"]]
        if rng.random() < .5: sc += [["set", "history.max_lines", "77"], ["save"], ["load"]]
        return sc
CHECK = C04()
