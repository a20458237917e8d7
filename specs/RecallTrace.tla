---------------------------- MODULE RecallTrace ----------------------------
EXTENDS Recall, TraceLib
VARIABLES i, s
Texts(q) == [k \in DOMAIN q |-> Str(q[k].t)]
Step(k, e) ==
  CASE e.op = "reset" -> s' = Begin(e.fold, e.pae, e.sticky, e.dupe)
    [] e.op = "hist" -> s' = Save(s, Ch(e.t))
    [] OTHER ->
         \E a \in {CASE e.op = "start" -> NewLine(Fresh(s)) [] e.op = "key" -> Key(s, Ch(e.k)) [] OTHER -> Do(s, e.c, e.n, e.arg)} :
           /\ s' = a
           /\ Match("line", k, <<e.text, e.pt, e.w>>, <<Str(a.text), a.pt, a.w>>)
           /\ (e.op = "cmd" /\ e.c = "accept-line" => Match("accepted", k, e.out, Str(s.text)))
           /\ Match("remembered", k, e.hist, Texts(a.h))
           /\ Match("saved", k, e.db, Texts(a.db))
Spec == i = 1 /\ s = Begin(0, 0, 0, "add") /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Step(i, Trace[i])]_<<i, s>>
=============================================================================
