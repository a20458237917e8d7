----------------------------- MODULE CoroTrace -----------------------------
EXTENDS Coro, TraceLib
VARIABLES i, s
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* All the ways to explain a pass that did this: sets of states.
\* When a coroutine is created meanwhile, the others may be missed or repeated.
Made(st) == Cardinality({x \in Ids : st.co[x].live # "no"})
RECURSIVE Passes(_, _, _, _, _, _)
Passes(st, n, turns, gone, due, log) ==
  LET grew == Made(st) > n IN
  (IF log = <<>> /\ (\A x \in due : x \in turns \/ grew \/ ~Due(st, x) \/ ~st.co[x].known \/ st.co[x].live # "s") THEN {End(st, gone)} ELSE {})
  \union
  (IF log # <<>> /\ log[1].k = "r" /\ log[1].n \in Ids
   THEN LET x == log[1].n IN
        IF (x \notin turns \/ grew) /\ st.co[x].known /\ st.co[x].live = "s" /\ Due(st, x)
        THEN UNION {Passes(r.st, n, turns \union {x}, IF r.st.co[x].live = "dead" THEN gone \union {x} ELSE gone, due, SubSeq(log, Len(r.log) + 1, Len(log))) : r \in {y \in Turn(st, x, <<>>) : IsPre(y.log, log)}}
        ELSE {}
   ELSE {})
Quiet(k, e, x) == Match("log", k, e.log, <<>>)
Same(k, e, rs) == \E r \in rs : r.log = e.log /\ s' = r.st
Either(k, e, rs) == IF \E r \in rs : r.log = e.log THEN Same(k, e, rs) ELSE PrintT(<<"MISMATCH", k, "log", "got", e.log, "want", {r.log : r \in rs}>>) /\ FALSE
Find(st, p) == {x \in DOMAIN st.g : st.g[x].id = p.n /\ st.g[x].p = p.p}
Step(k, e) ==
  CASE e.op = "reset" -> s' = InitSt(e.thr)
    [] e.op = "prog" -> s' = [s EXCEPT !.prog[e.n] = [cat |-> e.cat, iv |-> e.iv, prog |-> e.prog]]
    [] e.op = "new" -> s' = Create(s, e.n) /\ Match("log", k, e.log, <<>>)
    [] e.op = "tick" -> s' = [s EXCEPT !.now = @ + e.n]
    [] e.op \in {"fin", "exit"} -> s' = [s EXCEPT !.g = [x \in DOMAIN @ |-> IF x \in Find(s, e) THEN (IF e.op = "fin" THEN [@[x] EXCEPT !.out = TRUE] ELSE [@[x] EXCEPT !.exit = TRUE]) ELSE @[x]]]
    [] e.op = "cancel" -> s' = IF s.co[e.n].known THEN [s EXCEPT !.co[e.n].can = TRUE] ELSE s
    [] e.op = "until" -> s' = IF s.co[e.n].known THEN [s EXCEPT !.co[e.n].until = TRUE] ELSE s
    [] e.op = "remove" -> s' = IF s.co[e.n].live = "s" THEN Forget(s, e.n) ELSE s
    [] e.op = "cd" -> s' = [s EXCEPT !.cwd = e.c]
    [] e.op = "rl" -> s' = [s EXCEPT !.rl = e.n]
    [] e.op = "line" -> s' = Line(s)
    [] e.op = "resume" -> IF s.co[e.n].live = "s" THEN Either(k, e, MainResume(s, e.n, <<>>)) ELSE s' = s
    [] e.op = "main" -> Either(k, e, Fn(s, e.n, <<>>))
    [] e.op = "wait" -> \E r \in {Release(s)} \union (IF Known(s) = {} THEN {s} ELSE {}) :
         /\ s' = r
         /\ LET w == Timeout(r)  dead == \E x \in Known(r) : r.co[x].live = "dead" IN
            dead \/ Match("wait", k, e.t, IF w < 0 THEN w ELSE w * 250)
    [] e.op = "pass" -> LET b == Begin(s)  ps == Passes(b, Made(b), {}, {}, {x \in Known(b) : Due(b, x)}, e.log) IN
         IF ps = {} THEN PrintT(<<"MISMATCH", k, "pass", "got", e.log, "want", [due |-> {x \in Known(b) : Due(b, x)}, state |-> [x \in {y \in Ids : b.co[y].live # "no"} |-> b.co[x]]]>>) /\ FALSE
         ELSE s' \in ps
After(k, e) ==
  /\ Match("dead", k, {e.dead[x] : x \in DOMAIN e.dead}, {x \in Ids : s'.co[x].live = "dead"})
  /\ Match("cwd", k, <<e.cwd, e.rl>>, <<s'.cwd, s'.rl>>)
  /\ LET kn == Known(s') IN
     IF kn = {} THEN Match("has", k, e.has, 0)
     ELSE IF \E x \in kn : s'.co[x].live # "dead" THEN Match("has", k, e.has, 1) ELSE TRUE
Spec == i = 1 /\ s = InitSt(0) /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Step(i, Trace[i]) /\ After(i, Trace[i])]_<<i, s>>
=============================================================================
