--------------------------- MODULE LineQueueTrace ---------------------------
EXTENDS LineQueue, TraceLib
VARIABLES i, q, al
Step(k, e, x) ==
  CASE e.op = "reset" -> x = InitQ
    [] e.op = "back"  -> x = PutBack(q, e.a)
    [] e.op = "front" -> x = PutFront(q, [m \in 1..Len(e.a) |-> [t |-> e.a[m].v, f |-> e.a[m].f]]) /\ ~e.left
    [] e.op = "clear" -> x = InitQ
    [] e.op = "alias" -> x = q
    [] e.op = "line"  -> LET y == TakeLine(q, al) IN
         /\ Match("line", k, [r |-> e.r, f |-> e.f, v |-> e.v], [r |-> y.r, f |-> y.f, v |-> y.v]) /\ x = y.q
    [] e.op = "char"  -> LET y == TakeChar(q) IN
         /\ Match("char", k, [r |-> e.r, nl |-> e.nl, c |-> e.c], [r |-> y.r, nl |-> y.nl, c |-> y.c]) /\ x = y.q
Next(k, e) ==
  LET x == CASE e.op \in {"reset", "clear"} -> InitQ
             [] e.op = "back" -> PutBack(q, e.a)
             [] e.op = "alias" -> q
             [] e.op = "front" -> PutFront(q, [m \in 1..Len(e.a) |-> [t |-> e.a[m].v, f |-> e.a[m].f]])
             [] e.op = "line" -> TakeLine(q, al).q
             [] e.op = "char" -> TakeChar(q).q
  IN /\ Step(k, e, x)
     /\ Match("empty/incomplete", k, <<e.empty, e.inc>>, <<Empty(x), Incomplete(x)>>)
     /\ q' = x
     /\ al' = IF e.op = "reset" THEN <<>> ELSE IF e.op = "alias" THEN <<[n |-> e.n, l |-> e.l]>> \o al ELSE al
Spec == i = 1 /\ q = InitQ /\ al = <<>> /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_<<i, q, al>>
=============================================================================
