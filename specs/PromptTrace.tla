---------------------------- MODULE PromptTrace ----------------------------
EXTENDS Prompt, TraceLib
VARIABLES i, s
Def(e) == [id |-> e.id, prio |-> e.prio, mod |-> e.mod, f |-> e.f, r |-> e.r, t |-> e.t, u |-> e.u, old |-> e.old = 1, s |-> e.s]
Either(k, e, rs) == IF \E r \in rs : r.log = e.log THEN \E r \in rs : r.log = e.log /\ s' = r.st
                    ELSE PrintT(<<"MISMATCH", k, e.op, "got", e.log, "want", {r.log : r \in rs}>>) /\ FALSE
Init0 == InitSt @@ [esc |-> "", bel |-> "", marks |-> <<"", "">>]
Step(k, e) ==
  CASE e.op = "reset" -> s' = [Init0 EXCEPT !.async = e.async = 1, !.env = e.env, !.codes = e.codes, !.cwd = e.cwd, !.esc = e.esc, !.bel = e.bel, !.marks = <<e.esc \o "]133;A", e.esc \o "]133;B">>]
    [] e.op = "body" -> s' = [s EXCEPT !.body = (e.key :> e.steps) @@ @]
    [] e.op = "filter" -> s' = IF e.mod = "" THEN [s EXCEPT !.fl = Append(@, Def(e))] ELSE [s EXCEPT !.mods[e.mod].defs = Append(@, Def(e))]
    [] e.op = "module" -> s' = [s EXCEPT !.mods = (e.name :> [loaded |-> FALSE, defs |-> <<>>, deps |-> e.dep]) @@ @]
    [] e.op = "activate" -> Either(k, e, {Activate(s, e.name, e.how)})
    [] e.op = "async" -> s' = [s EXCEPT !.async = e.on = 1]
    [] e.op = "line" -> Either(k, e, Line(s, e.p, e.r))
    [] e.op = "transient" -> Either(k, e, Runs(s, "transient", e.p, e.r))
    [] e.op = "refilter" -> Either(k, e, Again(s))
    [] e.op = "pass" -> LET ps == Passes(s, Live(s), "", TRUE, e.log) IN
         IF ps = {} THEN PrintT(<<"MISMATCH", k, "pass", "got", e.log, "live", Live(s), "like", LET a == CHOOSE x \in Passes(s, Live(s), "", FALSE, <<>>) : TRUE IN a.log>>) /\ FALSE
         ELSE \E p \in ps : s' = p.st
    [] e.op = "wait" -> s' = s /\ Match("wait", k, e.t, IF Live(s) = {} THEN -1 ELSE 0)
    [] e.op = "expand" -> s' = [s EXCEPT !.depth = e.depth] /\ LET x == Expand(e.in, e.flag, s.cwd, e.depth) IN
         /\ Match("text", k, e.out, Text(x.out, s.esc))
         /\ Match("ok", k, e.ok, IF x.ok THEN 1 ELSE 0)
Spec == i = 1 /\ s = Init0 /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Step(i, Trace[i])]_<<i, s>>
=============================================================================
