---------------------------- MODULE ExpandTrace ----------------------------
EXTENDS Expand, TraceLib
VARIABLES i, lines, mode, st
vars == <<i, lines, mode, st>>
Same == UNCHANGED <<lines, mode, st>>
X == [old |-> <<"x">>, new |-> <<"x">>]
Without(n) == SubSeq(lines, 1, n) \o SubSeq(lines, n + 2, Len(lines))
Next(k, e) ==
  CASE e.op = "reset" -> lines' = <<>> /\ mode' = e.mode /\ st' = X
    [] e.op = "mode" -> mode' = e.mode /\ UNCHANGED <<lines, st>>
    [] e.op = "add" -> lines' = Append(lines, e.t) /\ UNCHANGED <<mode, st>>
    [] e.op = "remove" -> lines' = (IF e.did THEN Without(e.n) ELSE lines) /\ UNCHANGED <<mode, st>>
    [] e.op = "replace" -> lines' = (IF e.did THEN [lines EXCEPT ![e.n + 1] = e.t] ELSE lines) /\ UNCHANGED <<mode, st>>
    [] e.op = "pos" -> Same
    [] e.op = "words" -> Match("words", k, e.words, Words(e.t)) /\ Same
    [] e.op = "expand" ->
         \E x \in {Expanded(lines, e.t, mode, st)} :
           /\ Match("outcome", k, e.r, x.r)
           /\ Match("line", k, e.out, x.t)
           /\ Match("position kept", k, e.stayed, TRUE)
           /\ Match("remembered lines", k, e.lines, lines)
           /\ st' = x.st /\ UNCHANGED <<lines, mode>>
    [] e.op = "show" ->
         \E x \in {Expanded(lines, e.t, mode, st)} :
           /\ Match("outcome", k, e.r, x.r)
           /\ Match("line", k, e.out, IF x.r < 0 THEN <<>> ELSE x.t)
           /\ Match("parts", k, e.list, IF x.r < 0 THEN <<>> ELSE x.list)
           /\ st' = x.st /\ UNCHANGED <<lines, mode>>
Spec == i = 1 /\ lines = <<>> /\ mode = "on" /\ st = X /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_vars
=============================================================================
