"""Scenarios for the history properties: random multi-session histories."""
from vlib import Check
TEXTS = ["a", "b", "cc", "dir /w", "echo x", "git status -s", "git", "a ", "x|y", "t\u00e9l\u00e9 \u4e2d", "\tq", " lead", "A", "rem " + "z" * 300]

class HistoryCheck(Check):
    module = "history"
    spec, cfg = "HistoryTrace.tla", "HistoryTrace.cfg"
    technique = "TLA+ specification model-checked by TLC; recorded executions of the real history_db validated against it"
    level_note = ("The specification is explored exhaustively for 2 sessions, 2 texts, 7 operations; the real history_db is then run on "
                  "hand-written and random multi-session histories (with death inside operations) and every recorded event must be a step of that specification. "
                  "Assurance for the code extends to the histories run; sessions share one process under Wine.")
    assumptions = ["sessions of one process stand for processes; a killed process loses its handles and its alive file, and dies between (not inside) file operations",
                   "Wine's file semantics stand for Windows'"]
    def __init__(self, id, focus):
        self.id, self.focus = id, focus
        self.mc = {"quick": [("MCHistory.tla", "MCHistory.cfg")], "thorough": [("MCHistory.tla", "MCHistoryT.cfg")]}

    def scenarios(self, rng, tier):
        n = 160 if tier == "quick" else 1600
        return fixed(self.focus) + [self.gen2(rng) if rng.random() < (0.3 if self.focus == "remove" else 0.12) else self.gen(rng, k) for k in range(n)] + \
               [self.bulk(rng) for _ in range(3 if tier == "quick" else 40)]

    def gen2(self, rng):
        """Removals deferred by several sessions while others rewrite the master."""
        t = 0
        def add(id, v):
            nonlocal t; t += 1
            return ["add", id, 0, v, t]
        n = rng.randint(4, 14)
        texts = [c * rng.choice([1, 1, 2, 5, 12]) for c in "abcdefghijklmn"[:n]]
        sc = [["reset"], ["start", 2, 0, True, True, "add", rng.choice("01"), False, 0, 200]]
        sc += [add(2, rng.choice(texts) if rng.random() < 0.3 else x) for x in texts]
        ids = rng.choice([[1], [1, 3]])
        for id in ids: sc.append(["start", id, 0, False, True, "erase_prev", rng.choice("01"), False, rng.choice([0, 0, 6]), rng.choice([1, 200])])
        live = set(ids)
        for _ in range(rng.randint(2, 5)):
            for _ in range(rng.randint(0, 5)):
                id = rng.choice(ids)
                if id not in live: continue
                x = rng.random()
                if x < 0.55: sc.append(["rm", id, 0, rng.choice(texts)])
                elif x < 0.75: sc += [["load", id, 0], ["rmidx", id, 0, rng.randint(1, n)]]
                else: sc.append(add(id, rng.choice(texts)))
            x = rng.random()
            if x < 0.6: sc.append(["compact", rng.choice([2, 2, 2] + list(live)), 0, rng.choice("001"), rng.choice([-1, 0, 2, n // 2, n - 2, n - 1])])
            elif x < 0.7: sc.append(["clear", 2, 0])
            elif x < 0.85 and live:
                id = rng.choice(list(live)); live.discard(id); sc.append([rng.choice(["kill", "exit"]), id, 0])
            sc.append(add(2, rng.choice(texts)))
        for id in sorted(live): sc.append(["exit", id, 0])
        return sc + [["peek"], ["load", 2, 0], ["start", 4, 0, rng.random() < 0.5, True, "add", "1", False, 0, 200], ["load", 4, 0], ["exit", 4, 0], ["peek"]]

    def bulk(self, rng):
        """Histories larger than the read buffer (long lines stand for many)."""
        t = 0
        def add(id):
            nonlocal t; t += 1
            return ["add", id, 0, "~%d~%s" % (rng.choice([100, 900, 7000, 20000, 33000]), rng.choice("abcdefghijkl")), t]
        sh = rng.random() < 0.4
        sc = [["reset"], ["start", 1, 0, sh, True, rng.choice(["add", "erase_prev"]), rng.choice("01"), False, 0, 200], ["start", 2, 0, True, True, "add", "1", False, 0, 200]]
        for _ in range(rng.randint(10, 16)):
            sc.append(add(rng.choice([1, 1, 2])))
            if rng.random() < 0.25: sc += [["load", 1, 0], ["rmidx", 1, 0, rng.randint(1, 12)]]
            if rng.random() < 0.2: sc.append(["rm", rng.choice([1, 2]), 0, "~%d~%s" % (rng.choice([100, 900, 7000, 20000, 33000]), rng.choice("abcdefghijkl"))])
            if rng.random() < 0.08: sc.append(["compact", 2, 0, rng.choice("01"), rng.choice([-1, 0, 6])])
        return sc + [["peek"], ["load", 1, 0], ["exit", 1, 0], ["peek"], ["load", 2, 0], ["compact", 2, 0, "1", 8], ["peek"]]

    def gen(self, rng, k):
        f = self.focus
        sc = [["reset"]]
        live, saves, loaded, t = {}, {}, set(), 1000
        texts = rng.sample(TEXTS, rng.randint(2, 6))
        big = rng.random() < 0.08
        if big:
            texts += ["~%d~%s" % (rng.randint(3000, 16000), c) for c in "xyz"]
        shared_bias = rng.random()
        limit_bias = rng.choice([0, 0, 2, 3, 5]) if f != "compact" else rng.choice([0, 2, 3, 4, 8])
        for _ in range(rng.randint(10, 40)):
            t += rng.randint(0, 3)
            die = rng.randint(1, 8) if rng.random() < (0.08 if f == "loss" else 0.03) else 0
            if not live or (len(live) < 3 and rng.random() < 0.15):
                id = rng.choice([x for x in (1, 2, 3, 4) if x not in live])
                save = rng.random() < 0.92
                if id in saves: save = saves[id]      # leftovers of an id are of one kind
                saves[id] = save
                dupe = rng.choice(["add", "ignore", "erase_prev"] if f != "remove" else ["erase_prev", "erase_prev", "add"])
                sc.append(["start", id, die, rng.random() < shared_bias * 0.6, save, dupe,
                           rng.choice("01"), rng.random() < 0.5, limit_bias, rng.choice([1, 3, 200])])
                if not die: live[id] = save
                else: sc.append(["kill", id, 0])
                continue
            id = rng.choice(list(live))
            x = rng.random()
            if x < (0.45 if f == "loss" else 0.4):
                v = rng.choice(texts) if rng.random() < 0.85 else rng.choice(["", "u%d" % t])
                sc.append(["add", id, die, v, t])
            elif x < 0.5: sc.append(["rm", id, die, rng.choice(texts)])
            elif x < 0.57:
                sc.append(["load", id, 0]); sc.append(["rmidx", id, 0, rng.randint(1, 4)])
            elif x < 0.62: sc.append(["rmidx", id, 0, rng.randint(1, 6)])
            elif x < 0.66 and id not in loaded: sc.append(["rmfound", id, 0, rng.randint(1, 4)])
            elif x < 0.69: sc.append(["find", id, 0, rng.choice(texts)])
            elif x < 0.72: sc.append(["clear", id, 0])
            elif x < 0.76 or (f == "compact" and x < 0.82):
                if live[id]: sc.append(["compact", id, 0, rng.choice("01"), rng.choice([-1, -1, 0, 1, 2, 3, 5])])
            elif x < 0.84: sc.append(["load", id, 0])
            elif x < 0.88: sc.append(["peek"])
            elif x < 0.94:
                sc.append(["exit", id, die]); del live[id]; die = 0
            else:
                sc.append(["kill", id, 0]); del live[id]
            if sc[-1][0] in ("load", "compact", "rmidx"): loaded.add(id)
            if sc[-1][0] in ("exit", "kill"): loaded.discard(id)
            if die and id in live:
                # may or may not have died: end it for certain
                sc.append(["kill", id, 0]); del live[id]
        return sc

    def known(self):
        if self.id != "C01":
            return {}
        st = ["start", 1, 0, True, True, "add", "0", False, 0, 200]
        return {
            "death-in-compact": [["reset"], st, ["add", 1, 0, "a", 1], ["add", 1, 0, "b", 2], ["compact", 1, 3, "0", 0], ["peek"]],
            "leading-bar": [["reset"], st, ["add", 1, 0, "|x", 1]],
        }

    def transform(self, events):
        out = []
        names = {}
        def nm(v):          # long or unusual texts are named
            if len(v) <= 24 and all(32 <= ord(c) < 127 and c not in '"\\\\' for c in v):
                return v
            return names.setdefault(v, "#%d" % len(names))
        def vw(l):
            return [dict(x, v=nm(x["v"])) for x in l]
        for e in events:
            e = dict(e)
            a = e.pop("a", None)
            op = e["op"]
            if op == "reset":
                names.clear()
            if op == "start":
                e.update(shared=a[0] == "true", save=a[1] == "true", dupe=a[2], tson=a[3] == "1", igns=a[4] == "true",
                         limit=int(a[5]), thr=int(a[6]))
            elif op == "add":
                e.update(v=nm(a[0]), t=a[1], empty=a[0] == "", blank=a[0][:1] in (" ", "\t"))
            elif op in ("rm", "find"):
                e.update(v=nm(a[0]))
            elif op in ("rmidx", "rmfound"):
                e.update(n=int(a[0]))
            elif op == "compact":
                e.update(uniq=a[0] == "1", limit=int(a[1]))
            for k in ("view", "rl"):
                if k in e:
                    e[k] = vw(e[k])
            if "views" in e:
                e["views"] = [dict(s=x["s"], view=vw(x["view"])) for x in e["views"]]
            e.pop("die", None); e.pop("calls", None)
            out.append(e)
        return out

def fixed(focus):
    """Hand-written shapes that random histories rarely reach."""
    st = lambda id, shared, dupe, ts="1", limit=0, thr=200: ["start", id, 0, shared, True, dupe, ts, False, limit, thr]
    add = lambda id, v, t: ["add", id, 0, v, t]
    r = []
    # A session id is reused over leftovers of an earlier master.
    for how in (["clear", 2, 0], ["compact", 2, 0, "0", 0], ["compact", 2, 0, "1", 3]):
        for gap in ([], [add(2, "n1", 50), add(2, "n2", 51), add(2, "n3", 52), add(2, "n4", 53)]):
            r.append([["reset"], st(2, True, "add"), add(2, "a", 1), add(2, "b", 2), add(2, "c", 3), add(2, "d", 4),
                      st(1, False, "erase_prev"), ["rm", 1, 0, "b"], ["rm", 1, 0, "d"], add(1, "own", 9), ["kill", 1, 0], how] + gap +
                     [add(2, "a", 60), add(2, "b", 61), add(2, "c", 62), st(1, False, "erase_prev"), ["load", 1, 0], ["exit", 1, 0], ["peek"], ["load", 2, 0]])
    # Removals deferred, master rewritten by others (twice), then applied.
    for u in "01":
        for lim in (0, 2, 3):
            r.append([["reset"], st(2, True, "add")] + [add(2, v, t) for t, v in enumerate("abcabdc", 1)] +
                     [st(1, False, "erase_prev"), st(3, False, "erase_prev"), ["rm", 1, 0, "a"], ["rm", 3, 0, "d"], ["compact", 2, 0, u, lim], add(2, "e", 20),
                      ["rm", 1, 0, "c"], ["compact", 2, 0, u, lim], ["kill", 1, 0], ["exit", 3, 0], ["peek"], ["exit", 2, 0], ["peek"]])
    # The compacting session itself has removals pending.
    for u in "01":
        for lim in (0, 1, 2, 3, -1):
            for how in ([["rm", 1, 0, "d"]], [["load", 1, 0], ["rmidx", 1, 0, 7]], [["load", 1, 0], ["rmidx", 1, 0, 3], ["rm", 1, 0, "d"]], [add(1, "a", 30), add(1, "d", 31)]):
                r.append([["reset"], st(2, True, "add")] + [add(2, v, t) for t, v in enumerate("abcadbd", 1)] +
                         [st(1, False, "erase_prev", limit=0 if lim >= 0 else 3, thr=1)] + how + [["compact", 1, 0, u, lim], ["load", 2, 0], ["load", 1, 0], ["exit", 1, 0], ["peek"]])
    # Death at every point of every kind of operation, with leftovers around.
    if focus == "loss":
        for dupe in ("add", "erase_prev"):
            for n in range(1, 12):
                pre = [["reset"], st(1, True, "add"), add(1, "a", 1), add(1, "b", 2), st(2, False, "erase_prev"), add(2, "a", 3), add(2, "z", 4),
                       st(4, False, "add"), add(4, "w", 5), ["kill", 4, 0], ["kill", 2, 0]]
                post = [["peek"], st(3, False, "erase_prev"), ["load", 3, 0], add(3, "c", 9), ["exit", 3, 0], ["peek"], ["load", 1, 0]]
                r.append(pre + [["start", 3, n, False, True, dupe, "1", False, 0, 200], ["kill", 3, 0]] + post)
                r.append(pre[:-2] + [["exit", 2, n], ["kill", 2, 0], ["kill", 4, 0]] + post)
                if n <= 6:
                    r.append(pre[:-2] + [["add", 2, n, "a", 7], ["kill", 2, 0]] + post)
                    r.append(pre[:-2] + [["add", 4, n, "a", 7], ["kill", 4, 0]] + post)
                    r.append(pre[:-2] + [["rm", 2, n, "a"], ["kill", 2, 0]] + post)
    return r
