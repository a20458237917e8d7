-------------------------- MODULE ArgMatchTrace --------------------------
EXTENDS ArgMatch, TraceLib
VARIABLES i, S, files
\* "3>word" as the entry [w |-> word, to |-> matcher]
Entry(s, e) == LET p == Find(e, 1, LAMBDA c : c = ">") IN
  IF p > Len(e) THEN [w |-> e, to |-> 0] ELSE [w |-> SubSeq(e, p + 1, Len(e)), to |-> Lookup(s.name, Atoi(SubSeq(e, 1, p - 1)))]
Entries(s, es) == <<>> \o [n \in 1..Len(es) |-> Entry(s, es[n])]
SetOf(q) == {q[n] : n \in 1..Len(q)}
Same(k, got, want) == \A n \in 1..Len(want) : want[n] = "?" \/ Match(<<"class of character", n, want[n]>>, k, got[n], want[n])
Do(k, e) ==
  LET o == IF e.op \in {"reset", "new", "line"} THEN 0 ELSE Lookup(S.name, e.m) IN
  CASE e.op = "reset" -> S' = NoMatchers /\ files' = SetOf(e.es)
    [] e.op = "new" -> S' = New(S, e.m, e.cmd) /\ UNCHANGED files
    [] e.op \in {"arg", "argu"} -> S' = AddArg(S, o, Entries(S, e.es)) /\ UNCHANGED files
    [] e.op \in {"flags", "flagsu"} -> S' = AddFlags(S, o, Entries(S, e.es)) /\ UNCHANGED files
    [] e.op = "hide" -> S' = HideFlags(S, o, SetOf(e.es)) /\ UNCHANGED files
    [] e.op = "loop" -> S' = [S EXCEPT !.obj[o].loop = IF e.n = 0 THEN -1 ELSE e.n] /\ UNCHANGED files
    [] e.op = "nofiles" -> S' = [S EXCEPT !.obj[o].nofiles = TRUE] /\ UNCHANGED files
    [] e.op = "anywhere" -> S' = [S EXCEPT !.obj[o].any = e.on] /\ UNCHANGED files
    [] e.op = "endflags" -> S' = SetEnd(S, o, e.s) /\ UNCHANGED files
    [] e.op = "prefix" -> S' = [S EXCEPT !.obj[o].pre = @ \cup {e.s[1]}] /\ UNCHANGED files
    [] e.op = "chain" -> S' = SetChain(S, o) /\ UNCHANGED files
    [] e.op = "clear" -> S' = Reset(S, o) /\ UNCHANGED files
    [] e.op = "line" ->
         /\ UNCHANGED <<S, files>>
         /\ Match("no script errors", k, e.out, "")
         /\ \E m \in {Matches(S, e.t, files)} : m.any \/ Match("offered", k, SetOf(e.matches), m.set)
         /\ Same(k, e.faces, Faces(S, e.t))
Step(k, e) == (IF e.op = "line" THEN TRUE ELSE Match("accepted", k, e.ok, TRUE)) /\ Do(k, e)
Spec == i = 1 /\ S = NoMatchers /\ files = {} /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Step(i, Trace[i])]_<<i, S, files>>
=============================================================================
