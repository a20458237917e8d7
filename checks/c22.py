"""Recalling remembered lines."""
from vlib import Check
class C22(Check):
    id, module, spec, cfg = "C22", "recall", "RecallTrace.tla", "RecallTrace.cfg"
    mc = {"quick": [("MCRecall.tla", "MCRecall.cfg")], "thorough": [("MCRecall.tla", "MCRecallT.cfg")]}
    technique = "TLA+ specification of recalling, searching, editing and reusing history lines model-checked by TLC; random sessions in the real line editor with a real history file validated against it after each key"
    level_note = "Moving, searching and reusing are checked over all small histories and command sequences; the real editor must follow the specification on generated sessions."
    assumptions = ["one session; ASCII lines without ^; undo of edits: C11"]
    WORDS = ["dir", "dir", "dir x", "dirx", "Dir y", "cd", "cd dir", "echo dir", "x", "git a", "git b", "git a b", "ab ab", "b", "Git a"]
    MOVE = ["previous-history"] * 6 + ["next-history"] * 5 + ["beginning-of-history", "end-of-history", "fetch-history"]
    SEEK = ["history-search-backward"] * 3 + ["history-search-forward"] * 2 + ["history-substring-search-backward"] * 2 + ["history-substring-search-forward"]
    EDIT = ["backward-delete-char"] * 2 + ["backward-char"]
    LIST = ["add-history", "remove-history", "remove-history"]
    END = ["accept-line"] * 4 + ["operate-and-get-next"]
    def scenarios(self, rng, tier):
        n = 1 if tier == "quick" else 100
        return [self.session(rng) for k in range(600 * n)] + [self.replay_run(rng) for k in range(200 * n)] + [self.purge(rng) for k in range(120 * n)] + [self.shorten(rng) for k in range(50 * n)] + [self.emptied(rng) for k in range(40 * n)]
    # Reusing lines one after the other.
    def replay_run(self, rng):
        sc = [["reset", rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([1, 1, 1, 0]), rng.choice(["add", "add", "erase_prev", "ignore"])]]
        for k in range(rng.choice([1, 2, 4, 6])): sc.append(["hist", rng.choice(self.WORDS)])
        sc.append(["start"])
        for k in range(rng.choice([2, 4, 7])):
            for m in range(rng.choice([0, 1, 1, 1, 2, 3])):
                c = rng.choice(["previous-history"] * 3 + ["next-history"] * 4 + ["end-of-history", "beginning-of-history", "history-search-backward"])
                sc.append(["cmd", c] + (["2"] if rng.random() < .1 and "of" not in c else []))
            if rng.random() < .25: sc.append(rng.choice([["key", "x"], ["key", "d"], ["cmd", "backward-delete-char"], ["cmd", "remove-history"]]))
            if rng.random() < .2: sc.append(["cmd", rng.choice(["history-search-backward", "history-substring-search-backward", "next-history", "previous-history"])])
            sc.append(["cmd", "accept-line" if rng.random() < .85 else "operate-and-get-next"])
        return sc
    # Finding lines, and removing them until none is left; or changing them and going on.
    def purge(self, rng):
        w = rng.choice(["dir", "git a", "b", "ab ab"]); fill = rng.choice([[], [], ["x"], self.WORDS])
        sc = [["reset", rng.choice([0, 0, 1]), rng.choice([0, 1]), rng.choice([0, 1, 1]), rng.choice(["add", "add", "erase_prev"])]]
        for k in range(rng.choice([1, 1, 2, 3, 5])): sc.append(["hist", rng.choice([w, w, w + " x"] + fill)])
        sc.append(["start"])
        for k in range(rng.choice([1, 2, 3])):
            for c in (w if rng.random() < .3 else w[:rng.choice([1, 1, 2, 3])]): sc.append(["key", c])
            seek = rng.choice(self.SEEK)
            for m in range(rng.choice([1, 2, 4, 6])):
                sc.append(["cmd", seek if rng.random() < .9 else rng.choice(self.SEEK)])
                if rng.random() < .7: sc.append(["cmd", "remove-history"])
            if rng.random() < .4:
                for m in range(rng.choice([1, 2])): sc.append(rng.choice([["key", "x"], ["cmd", "backward-delete-char"]]))
                sc.append(["cmd", rng.choice(["end-of-history", "next-history", "previous-history", "backward-delete-char"])])
            if rng.random() < .7: sc.append(["cmd", "accept-line"])
        return sc
    # Finding a line, changing it to what was typed, and accepting another.
    def shorten(self, rng):
        w = rng.choice(["dir", "git a", "abcd"]); k = rng.choice([1, 1, 2])
        sc = [["reset", rng.choice([0, 1]), rng.choice([1, 1, 1, 0]), rng.choice([1, 1, 1, 0]), rng.choice(["add", "add", "erase_prev", "ignore"])]]
        for m in range(rng.choice([0, 1, 2])): sc.append(["hist", rng.choice(["x", "cd", w[:k]])])
        for m in range(rng.choice([1, 1, 2])): sc.append(["hist", rng.choice([w, w, w + "x"])])
        sc.append(["start"])
        for c in w[:k]: sc.append(["key", c])
        for m in range(rng.choice([1, 1, 2])): sc.append(["cmd", "history-search-backward"])
        for m in range(rng.choice([len(w) - k, len(w) - k, len(w) - k + 1, 1])): sc.append(["cmd", "backward-delete-char"])
        for c in rng.choice(["", "", "", w[k:k + 1]]): sc.append(["key", c])
        sc.append(["cmd", rng.choice(["end-of-history"] * 3 + ["next-history", "previous-history"])])
        for m in range(rng.choice([1, 1, 2])): sc += [["cmd", "accept-line"]] + [["cmd", rng.choice(["previous-history", "next-history", "history-search-backward"])]] * rng.choice([0, 1, 1, 2])
        return sc
    # Emptying lines and leaving them, and removing others.
    def emptied(self, rng):
        w = rng.choice(["a", "a", "ab"]); sc = [["reset", 0, rng.choice([0, 1]), rng.choice([0, 1]), "add"]]
        for m in range(rng.choice([1, 2, 2, 3])): sc.append(["hist", rng.choice([w, w, w, "b"])])
        sc.append(["start"])
        for m in range(rng.choice([1, 1, 2])):
            sc.append(["cmd", "previous-history"])
            if rng.random() < .7: sc += [["cmd", "backward-delete-char"]] * len(w)
        sc.append(["cmd", rng.choice(["previous-history"] * 3 + ["next-history", "end-of-history"])])
        if rng.random() < .2: sc.append(["key", w[0]])
        seek = rng.choice(self.SEEK)
        for m in range(rng.choice([0, 1, 1, 2])): sc.append(["cmd", seek])
        for m in range(rng.choice([1, 2, 2, 3])): sc.append(["cmd", "remove-history"])
        sc.append(["cmd", rng.choice(["accept-line", "previous-history", seek])])
        return sc
    def session(self, rng):
        sc = [["reset", rng.choice([0, 0, 1]), rng.choice([0, 1]), rng.choice([0, 1]), rng.choice(["add", "add", "erase_prev", "ignore"])]]
        some = [rng.choice(self.WORDS) for _ in range(rng.choice([2, 3, 8]))]
        for k in range(rng.choice([0, 1, 3, 5, 8, 8])): sc.append(["hist", rng.choice(some)])
        sc.append(["start"])
        kinds = [rng.choice([0, 1, 4]) for _ in range(6)]; kinds[0] = kinds[0] or 2; kinds[4] = kinds[4] or 1
        added = False; seek = rng.choice(self.SEEK) if rng.random() < .5 else None
        for k in range(rng.choice([8, 14, 22, 30])):
            g = rng.choices(range(6), kinds)[0]
            if g == 3:
                t = rng.choice(some); t = t[:rng.choice([1, 1, 2, 3, 9])] if rng.random() < .8 else t[rng.randint(0, len(t) - 1):]
                for c in t: sc.append(["key", c])
                continue
            c = rng.choice(seek and rng.random() < .7 and g == 1 and [seek] or [self.MOVE, self.SEEK, self.EDIT, None, self.END, self.LIST][g])
            n = rng.choice(["2", "3", "1", "0", "7", "-", "-2"]) if rng.random() < (.6 if c == "fetch-history" else .12) and c not in ("accept-line", "add-history", "remove-history", "end-of-history", "beginning-of-history", "backward-delete-char", "backward-char") else None
            if n == "0" and "search" in c: n = "4"
            if c == "operate-and-get-next" and n: n = rng.choice(["1", "2", "4", "9"])
            if c == "add-history": added = True
            if c == "remove-history" and added: continue # (What was added on this line can be removed on the next.)
            if c == "accept-line": added = False
            sc.append(["cmd", c] + ([n] if n else []))
        return sc
CHECK = C22()
