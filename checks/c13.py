"""Path arithmetic."""
import itertools
from vlib import Check
class C13(Check):
    id, module, spec, cfg = "C13", "path", "PathsTrace.tla", "PathsTrace.cfg"
    mc = {"quick": [("MCPaths.tla", "MCPaths.cfg")], "thorough": [("MCPaths.tla", "MCPathsT.cfg")]}
    technique = "TLA+ specification of the place a path names, model-checked by TLC on all short paths; the real path functions validated against it on enumerated and generated paths"
    level_note = "Every path up to a length over the significant characters, and long generated ones, are taken apart, cleaned, walked up and joined by the real code; TLC compares every result and the place it names with the specification."
    assumptions = ["joining a path with a drive but no root (c:x) to another is not specified, nor are the separators inside the root of a cleaned path; letters are ASCII in drive and device names"]
    ALPHA = ["/", "\\", ".", "a", ":", "?", "c"]
    ROOTS = ["", "", "", "/", "\\", "c:", "c:\\", "C:/", "\\\\srv\\share", "//s/h", "\\\\s\\h\\", "\\\\?\\", "\\\\?\\c:\\", "//?/c:", "\\\\?\\UNC\\s\\h", "//?/unc/s/h/", "\\\\s", "\\\\s\\", "\\\\s\\\\h", "\\\\?\\\\c:\\", "\\\\?\\UNC\\\\s\\\\h", "///s/h", "c://", "\\\\?\\UNC\\s", "\\\\\\s\\\\h"]
    def elem(self, rng):
        return rng.choice(["a", "b", "foo", "..", "..", ".", "...", ".a", "..a", "a.", "a.b", "a.b.c", ".x.y", "x y", "a. b", "\u00e9\u4e2d", "con", "NUL.txt", "com1", "lpt", "com10", " aux", "con:", "conx", "lpt9.a:b", "a:b", "?", "~", "unc"])
    def path(self, rng, n=6):
        sep = lambda: rng.choice(["/", "\\", "\\", "\\", "//", "\\/", "\\\\\\"])
        s = rng.choice(self.ROOTS)
        k = rng.randint(0, n)
        if k and s and s[-1] not in "/\\:" : s += sep()
        for i in range(k): s += (sep() if i else "") + self.elem(rng)
        if rng.random() < 0.35: s += sep()
        return s
    def relative(self, rng):
        while True:
            s = self.path(rng, 3)
            if not (s[1:2] == ":" and s[2:3] not in ("/", "\\")): return s
    def scenarios(self, rng, tier):
        q = tier == "quick"
        scs = []
        allp = ["".join(p) for n in range(0, 5 if q else 6) for p in itertools.product(self.ALPHA[:6], repeat=n)]
        if not q: allp += ["".join(p) for p in itertools.product("/.ac:", repeat=6)]
        if q: allp += ["".join(rng.choice("//\\..a:c") for _ in range(rng.randint(5, 9))) for _ in range(1500)]
        allp += ["//" + "".join(p) for n in range(1, 4) for p in itertools.product("/.a?" if q else "/.a?:", repeat=n)]
        for k in range(0, len(allp), 400):
            scs.append([["reset"]] + [["path", t] for t in allp[k:k + 400]])
        for k in range(24 if q else 400):
            sc = [["reset"]]
            for _ in range(100):
                r = rng.random()
                if r < 0.55: sc.append(["path", self.path(rng)])
                elif r < 0.75: sc.append(["join", self.path(rng, 3), self.relative(rng)])
                elif r < 0.92:
                    p = self.path(rng)
                    if not p.startswith(("//.", "\\\\.")): sc.append(["up", p])
                else: sc.append(["tilde", rng.choice(["~", "~/", "~\\", "~//a", "~/a/../b", "~x", "~~", "", "a~", "~/.", "~\\b\\"]) + rng.choice(["", "", "/x", "c", ".."])])
            scs.append(sc)
        return scs
    def transform(self, events):
        def u(s):
            return list(s) if s.isascii() and s.isprintable() else [c if 32 <= ord(c) < 127 else "u%02x" % ord(c) for c in s.encode("latin-1").decode("utf-8", "replace")]
        out = []
        for e in events:
            e = {k: (u(v) if k != "op" and isinstance(v, str) else v) for k, v in e.items()}
            if e["op"] == "up": e["out"] = [u(x) for x in e["out"]]
            if e["op"] == "path":
                # Positions are in bytes; the paths before them are.
                pass
            out.append(e)
        return out
CHECK = C13()
