"""Scenarios for the settings file and typed values."""
from vlib import Check
# name, type, options, default, description; dynamic (as scripts register them)
DYN = [("aa.flag", "bool", "", "True", "A flag"), ("aa.off", "bool", "", "False", "Another flag"), ("bb.count", "int", "", "100", "A count"), ("bb.neg", "int", "", "-3", "neg"),
       ("cc.text", "string", "", "abc", "Text"), ("cc.empty", "string", "", "", "No text"), ("dd.enum", "enum", "x,yy,Zed", "x", "Pick one"), ("dd.enum2", "enum", "off,on,auto", "auto", "Pick"),
       ("color.one", "color", "", "bright magenta", "A colour"), ("color.two", "color", "", "", "No colour"), ("color.three", "color", "", "sgr 38;5;1", "Code"),
       ("a.long.name.of.a.setting", "int", "", "1", "long")]
BUILTIN = ["exec.enable", "exec.path", "exec.cwd", "exec.dirs", "clink.paste_crlf", "terminal.emulation", "terminal.raw_esc", "history.save", "history.max_lines", "cmd.ctrld_exits",
           "exec.space_prefix", "cmd.auto_answer", "history.ignore_space", "history.dupe_mode", "history.shared", "history.expand_mode", "terminal.use_altgr_substitute"]
VALUES = {"bool": ["true", "FALSE", "on", "Off", "yes", "no", "1", "0", "00", "10", "2x", " true ", "maybe", "", "tru", "-1", "\ttrue", "0x1"],
          "int": ["0", "1", "-1", "42", "007", "12abc", "abc", "", " 5", "-", "-7x", "+3", "99999999", "--5", "- 5"],
          "string": ["abc", "", "foo bar", "a=b", "# not a comment", "x ", "\u00e9\u4e2d", "a\"b", "= =", "'", "%PATH%", "[x]", "a\tb", "trailing\t"],
          "enum": ["x", "YY", "zed", "Zed", "0", "1", "2", "3", "00", "01", "y", "zedd", "", " x", "on", "OFF", "auto", "1x", "-1", "9"],
          "color": ["red", "bright red", "bold", "nobold green", "bri whi on blu", "default", "normal", "default on red", "on blue", "reverse", "italic underline cyan", "#fff", "#12aB3f", "#fff on #000",
                    "bright #fff", "sgr 1;31", "SGR 0;4", "ansi 0", "sgr", "sgr 1 2", "bogus", "red green", "red on", "on on", "bright on red", "red bright on bright yellow", "dim", "", "  ", "underline on red",
                    "red on underline", "blackish", "redd on bluey", "bold bold", "default default", "sgr 0;38;2;1;2;3", "sgr 0;48;2;300;1;1", "sgr 0;91;107", "sgr 0;39;49", "sgr 0;7;1;3;4;31;42", "sgr 0;31;7", "sgr x"]}
FILE_VALUES = {t: [v for v in vs if not v[:1].isspace()] for t, vs in VALUES.items()}

def gen_color(rng):
    words = ["bold", "nobold", "dim", "bright", "underline", "nounderline", "italic", "reverse", "on", "default", "normal", "red", "bla", "gre", "yellow", "blu", "magenta", "cya", "white",
             "#123", "#aabbcc", "#12", "#12345g", "BRI", "On", "ita", "noun", "x", "re"]
    if rng.random() < 0.25:
        return rng.choice(["sgr ", "ansi ", "SGR "]) + ";".join(rng.choice(["0", "0", "0", "1", "3", "4", "7", "22", "30", "37", "38", "39", "40", "47", "48", "49", "90", "97", "100", "107", "2", "5", "255", "256", "", "x", "00", "31", "45"])
                                                             for _ in range(rng.randint(1, 9)))
    return rng.choice(["", "", " "]) + rng.choice([" ", " ", "  "]).join(rng.choice(words) for _ in range(rng.randint(1, 6))) + rng.choice(["", "", " "])

class SettingsCheck(Check):
    module, spec, cfg = "settings", "SettingsTrace.tla", "SettingsTrace.cfg"
    def is_reset(self, e): return e.get("op") == "reset"
    def transform(self, events):
        u = lambda s: [c if 32 <= ord(c) < 127 or c in "\t\n\r" else "u%02x" % ord(c) for c in s]
        out = []
        for e in events:
            e = dict(e)
            for k in ("n", "t", "def", "desc", "opts", "code", "words", "compat"):
                if isinstance(e.get(k), str): e[k] = u(e[k])
            if isinstance(e.get("file"), str): e["file"] = u(e["file"])
            for k in ("view", "changes", "out"):
                if k in e: e[k] = [{a: (u(b) if isinstance(b, str) and not (k == "out" and a == "s") else b) for a, b in x.items()} for x in e[k]]
            out.append(e)
        return out
