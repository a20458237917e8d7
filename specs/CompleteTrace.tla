---------------------------- MODULE CompleteTrace ----------------------------
EXTENDS Complete, TraceLib
VARIABLES i, s
Step(k, e) ==
  CASE e.op = "reset" -> s' = Begin(e.mode, e.fold, e.wrap, Ch(e.append), e.sup, e.supq, e.force, e.mark)
    [] e.op = "match" -> s' = [s EXCEPT !.items = Append(@, [m |-> Ch(e.m), t |-> e.t, a |-> Ch(e.a), s |-> e.s])]
    \* Nothing completed that could be undone: earlier typing is.
    [] e.op = "cmd" /\ e.c = "undo" /\ s.before = <<>> -> s' = [s EXCEPT !.text = Ch(e.text), !.pt = e.pt, !.last = "undo"]
    [] OTHER -> \E n \in {IF e.op = "line" THEN NewLine(s, Ch(e.t), e.back) ELSE Do(s, e.c)} :
         s' = n /\ Match("line", k, <<e.text, e.pt>>, <<Str(n.text), n.pt>>)
Init == i = 1 /\ s = Begin(0, 0, 1, <<>>, 0, 0, 0, 1)
Spec == Init /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Step(i, Trace[i])]_<<i, s>>
=============================================================================
