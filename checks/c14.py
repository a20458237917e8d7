"""Argument matchers: random definitions, and what is offered and how words are colored on random lines."""
from vlib import Check
class C14(Check):
    id, module, spec, cfg = "C14", "args", "ArgMatchTrace.tla", "ArgMatchTrace.cfg"
    mc = {"quick": [("MCArgMatch.tla", "MCArgMatch.cfg")], "thorough": [("MCArgMatch.tla", "MCArgMatchT.cfg")]}
    technique = "TLA+ specification of argument matchers model-checked by TLC; random matchers built through the real script functions, and what the real editor offers and how it colors the words validated against it"
    level_note = "The specification's rules are checked over all small definitions and lines; the real code must follow it on generated ones."
    assumptions = ["words of letters, digits and dashes, with quotes, redirections and command separators between spaces; no callbacks, loopchars or nowordbreakchars"]
    FILES = ["zf1", "zf2", "zd\\"]
    def scenarios(self, rng, tier):
        return [self.gen(rng, k, k % 2) for k in range(320 if tier == "quick" else 6000)]
    def gen(self, rng, k, small):
        sc = [["reset"] + self.FILES]
        n = rng.randint(1, 5)
        cmds = ["k%d%s" % (k, c) for c in "abc"]
        words = rng.sample(["one", "two", "ten", "abc", "abd", "x1", "x2", "on", "go", "g"], rng.randint(2, 6))
        flags = rng.sample(["-a", "-b", "--all", "--bee", "-ab", "--", "+x", "-"], rng.randint(1, 4))
        # Half of the definitions have so few words that lines follow them far.
        if small: words, flags = rng.sample(words, 2 if len(words) > 1 else 1), rng.sample(flags, min(len(flags), 2))
        # Matchers link to later ones only.
        ids = list(range(1, n + 1))
        ncmd = rng.randint(1, min(3, n))
        for m in ids:
            sc.append(["new", m] + ([cmds[m - 1]] if m <= ncmd else []))
        def entry(m, w, p=.5 if small else .35):
            later = [x for x in ids if x > m]
            if later and rng.random() < p: return "%d>%s" % (rng.choice(later), w)
            return w
        body = []
        for m in ids:
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                r = rng.random()
                es = [entry(m, w) for w in rng.sample(words, rng.randint(0 if rng.random() < .1 else 1, min(3, len(words))))]
                if r < .15: es.append("*")
                body.append([rng.choice(["arg", "arg", "arg", "argu"]), m] + es)
            if rng.random() < .55:
                for _ in range(rng.choice([1, 1, 2])):
                    body.append([rng.choice(["flags", "flags", "flagsu"]), m] + [entry(m, w, .25) for w in rng.sample(flags, rng.randint(1, len(flags)))])
            if rng.random() < .2: body.append(["hide", m] + rng.sample(flags, 1))
            if rng.random() < .2: body.append(["loop", m, rng.choice([0, 1, 1, 2, 3])])
            if rng.random() < .2: body.append(["nofiles", m])
            if rng.random() < (.25 if small else .15): body.append(["anywhere", m, rng.choice(["false", "false", "true"])])
            if rng.random() < .15: body.append(["endflags", m, rng.choice(["--", "--", "-b", ""])])
            if rng.random() < .1: body.append(["chain", m])
            if rng.random() < .05: body.append(["prefix", m, rng.choice("-+")])
            if rng.random() < .04: body.append(["clear", m])
        if rng.random() < .5: rng.shuffle(body)
        # a matcher's definition goes on later
        if rng.random() < .3:
            body += [["new", 9, cmds[rng.randrange(ncmd)]]] + [[rng.choice(["arg", "arg", "flags"]), 9] for _ in range(rng.randint(1, 2))]
            for b in body:
                if b[1] == 9 and b[0] == "arg" and len(b) == 2: b += [w if rng.random() < .6 else "%d>%s" % (rng.choice(ids[-1:]), w) for w in rng.sample(words, rng.randint(1, 2))]
                if b[1] == 9 and b[0] == "flags" and len(b) == 2: b += rng.sample(flags, 1)
        # lines between and after
        for b in body:
            sc.append(b)
            if rng.random() < .1: sc.append(["line", self.line(rng, cmds[:ncmd], words, flags, k)])
        for _ in range(rng.randint(4, 9)): sc.append(["line", self.line(rng, cmds[:ncmd], words, flags, k)])
        return sc
    def line(self, rng, cmds, words, flags, k):
        def cmd(last):
            ws = [rng.choice(cmds)]
            for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7])):
                r = rng.random()
                if r < .6: w = rng.choice(words)
                elif r < .85: w = rng.choice(flags)
                elif r < .92: w = rng.choice(["zz", "-zz", "unk", "-"])
                elif r < .95: w = rng.choice(cmds)
                else: w = ">zo"
                if w[0] != ">" and rng.random() < .08: w = '"%s"' % w
                ws.append(w)
            if last:
                r = rng.random()
                if r < .4: ws.append("")
                elif r < .5: ws.append(rng.choice(["-", "-", "--", "+"]))
                elif r < .75: ws.append(rng.choice(words + ["zf", "z"])[:rng.randint(1, 2)])
                elif r < .85: ws.append(rng.choice(flags)[:2])
                elif r < .9: ws.append('"' + rng.choice(words)[:1])
                elif r < .93: ws.append(">z")
            return " ".join(ws)
        return " & ".join([cmd(False)] * (rng.random() < .2) + [cmd(True)])
    def transform(self, events):
        out = []
        for e in events:
            e = dict(e)
            for f in ("t", "s", "cmd", "faces"):
                if f in e: e[f] = list(e[f])
            for f in ("es", "matches"):
                if f in e: e[f] = [list(x) for x in e[f]]
            out.append(e)
        return out
CHECK = C14()
