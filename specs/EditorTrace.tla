----------------------------- MODULE EditorTrace -----------------------------
EXTENDS Editor, TraceLib
VARIABLES i, s
vars == <<i, s>>
Seen(x) == [text |-> x.text, pt |-> x.pt, an |-> x.an, clip |-> x.clip, hist |-> x.h - 1, done |-> x.done, queued |-> x.queued]
SeenE(e) == [text |-> e.text, pt |-> e.pt, an |-> e.an, clip |-> e.clip, hist |-> e.hist, done |-> e.done, queued |-> e.queued]
\* Where undo leaves the cursor is its own business, as long as it is between characters.
AnyPt(e, X) == IF e.op = "cmd" /\ e.c \in {"undo", "revert-line"} /\ Boundary(e.text, e.pt)
               THEN {IF x.text = e.text /\ (x.past # s.past \/ x.text # s.text) THEN [x EXCEPT !.pt = e.pt, !.mark = Clip0(x.mark, x.text)] ELSE x : x \in X} ELSE X
Becomes(k, e, X) == /\ Match("terminated", k, e.nul, TRUE)
                    /\ \E Y \in {AnyPt(e, X)} : \E G \in {{x \in Y : Seen(x) = SeenE(e)}} :
                         /\ IF G # {} THEN TRUE ELSE LET y == CHOOSE y \in Y : TRUE IN Match(e.op, k, SeenE(e), Seen(y))
                         /\ s' \in G
Next(k, e) ==
  CASE e.op = "END" -> UNCHANGED s
    [] e.op = "reset" -> Becomes(k, e, {Fresh(e.lines, e.ring, <<>>)})
    [] e.op = "type" -> Becomes(k, e, {Typed(s, e.s)})
    [] e.op = "clip" -> Becomes(k, e, {[s EXCEPT !.clip = e.s, !.has = TRUE, !.done = <<>>, !.queued = <<>>]})
    [] e.op = "crlf" -> Becomes(k, e, {[s EXCEPT !.crlf = e.v, !.done = <<>>, !.queued = <<>>]})
    [] e.op = "cmd" -> Becomes(k, e, Run(s, e.c, e.n, e.arg))
Init == i = 1 /\ s = Fresh(<<>>, <<>>, <<>>)
Spec == Init /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_vars
=============================================================================
