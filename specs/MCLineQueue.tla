---------------------------- MODULE MCLineQueue ----------------------------
(* All histories of queueing and taking.  `want` is what is still to be     *)
(* delivered, character by character; `out` what was delivered.  Characters *)
(* are numbered so that loss, duplication and reordering are visible.       *)
EXTENDS LineQueue
CONSTANT MaxOps
VARIABLES q, want, n, ops, bad
vars == <<q, want, n, ops, bad>>
Aliases == <<[n |-> <<7>>, l |-> <<<<1>>, <<2>>, <<3>>>>]>>
Shapes == {<<>>, <<0>>, <<0, CR, LF>>, <<LF>>, <<0, 0, LF>>}
\* number the ordinary characters from m
Num(t, m) == [k \in 1..Len(t) |-> IF t[k] = 0 THEN 100 + m * 10 + k ELSE t[k]]
Remaining(x) == FoldLeft(LAMBDA a, e : a \o (IF e.t = <<7, CR, LF>> THEN <<1, CR, LF, 2, CR, LF, 3, CR, LF>> ELSE SubSeq(e.t, e.c + 1, Len(e.t))), <<>>, x)
Init == q = InitQ /\ want = <<>> /\ n = 0 /\ ops = 0 /\ bad = FALSE
DoBack(s) == LET t == Num(s, n) IN
  q' = PutBack(q, t) /\ want' = want \o t /\ n' = n + 1 /\ UNCHANGED bad
DoFront(s1, s2, two) ==
  LET a == Num(s1, n)  b == Num(s2, n + 1)
      ls == <<[t |-> a, f |-> 8]>> \o (IF two THEN <<[t |-> b, f |-> 9]>> ELSE <<>>)
  IN q' = PutFront(q, ls) /\ want' = Crlf(a) \o (IF two THEN Crlf(b) ELSE <<>>) \o want /\ n' = n + 2 /\ UNCHANGED bad
\* A line that is a macro, queued where macros are allowed: what must come out
\* is the macro's lines.
DoMacro ==
  /\ q' = PutFront(q, <<[t |-> <<7>>, f |-> 0]>>) /\ n' = n + 1 /\ UNCHANGED bad
  /\ want' = <<1, CR, LF, 2, CR, LF, 3, CR, LF>> \o want
\* A line is delivered up to its end, and only the line end may be rewritten.
IsEnd(t) == \A k \in 1..Len(t) : t[k] \in {CR, LF}
DoLine == LET y == TakeLine(q, Aliases) IN
  /\ q' = y.q /\ UNCHANGED n
  /\ IF ~y.r THEN bad' = (bad \/ want # <<>>) /\ UNCHANGED want
     ELSE LET body == Strip(y.v)
              rest == SubSeq(want, Len(body) + 1, Len(want))
              ends == {k \in 1..Len(rest) : rest[k] = LF}
              k == IF ends = {} THEN 0 ELSE CHOOSE z \in ends : \A w \in ends : z <= w
          IN /\ bad' = (bad \/ ~(IsPrefix(body, want) /\ (k = 0 => (rest = <<>> /\ y.f \in {6, 4})) /\ IsEnd(SubSeq(rest, 1, k))
                                  /\ y.v = body \o <<CR, LF>>))
             /\ want' = SubSeq(rest, k + 1, Len(rest))
DoChar == LET y == TakeChar(q) IN
  /\ q' = y.q /\ UNCHANGED n
  /\ IF ~y.r THEN bad' = (bad \/ want # <<>>) /\ UNCHANGED want
     ELSE bad' = (bad \/ want = <<>> \/ y.c # want[1]) /\ want' = Tail(want)
Next == ops < MaxOps /\ ops' = ops + 1 /\
  (\/ \E s \in Shapes : DoBack(s)
   \/ \E s1, s2 \in Shapes, two \in BOOLEAN : DoFront(s1, s2, two)
   \/ DoMacro \/ DoLine
   \/ (q # <<>> /\ Head(q).t # <<7, CR, LF>> /\ DoChar) \/ (q = <<>> /\ DoChar))
Spec == Init /\ [][Next]_vars
NothingLost == Remaining(q) = want
InOrder == ~bad
============================================================================
