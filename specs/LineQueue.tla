----------------------------- MODULE LineQueue -----------------------------
(* Input that waits to be read by CMD (clink/lib/src/line_queue.cpp), line  *)
(* by line or character by character.  A text is a sequence of UTF-16 units. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CR == 13
LF == 10
SHOW == 2
EDIT == 4

InitQ == <<>>
Entry(t, f) == [t |-> t, f |-> f, c |-> 0]
Ends(t) == Len(t) > 0 /\ t[Len(t)] = LF

RECURSIVE Strip(_)
Strip(t) == IF Len(t) > 0 /\ t[Len(t)] \in {CR, LF} THEN Strip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Crlf(t) == Strip(t) \o <<CR, LF>>

PutBack(q, t) ==
  IF t = <<>> THEN q
  ELSE IF q # <<>> /\ Len(Last(q).t) > 0 /\ ~Ends(Last(q).t)
  THEN [q EXCEPT ![Len(q)].t = @ \o t]
  ELSE Append(q, Entry(t, SHOW))

\* ls: sequence of [t, f]
PutFront(q, ls) == [k \in 1..Len(ls) |-> Entry(Crlf(ls[k].t), ls[k].f)] \o q

\* al: sequence of [n, l]: a macro's name and the lines it stands for.  Only a
\* whole line queued without flags that forbid it (hide 1, show 2, no macros 8)
\* is replaced: its first line is delivered, the others go to the front.
MayExpand(e) == e.c = 0 /\ e.f % 4 = 0 /\ (e.f \div 8) % 2 = 0
Macro(al, t) ==
  LET hit == SelectSeq(al, LAMBDA x : x.n = t) IN IF hit = <<>> THEN <<>> ELSE hit[1].l
TakeLine(q, al) ==
  IF q = <<>> THEN [q |-> q, r |-> FALSE, f |-> SHOW + EDIT, v |-> <<>>]
  ELSE LET e == Head(q)
           m == IF MayExpand(e) THEN Macro(al, Strip(e.t)) ELSE <<>> IN
       IF m # <<>>
       THEN [q |-> [k \in 1..Len(m) - 1 |-> Entry(Crlf(m[k + 1]), 9)] \o Tail(q), r |-> TRUE, f |-> e.f, v |-> Crlf(m[1])]
       ELSE
       [q |-> Tail(q), r |-> TRUE,
        f |-> IF Len(e.t) > 0 /\ ~Ends(e.t) /\ (e.f \div EDIT) % 2 = 0 THEN e.f + EDIT ELSE e.f,
        v |-> Crlf(SubSeq(e.t, e.c + 1, Len(e.t)))]

TakeChar(q) ==
  IF q = <<>> THEN [q |-> q, r |-> FALSE, nl |-> FALSE, c |-> 0]
  ELSE LET e == Head(q) IN
       [q |-> IF e.c + 1 = Len(e.t) THEN Tail(q) ELSE [q EXCEPT ![1].c = @ + 1],
        r |-> TRUE, nl |-> (e.c = 0 /\ Ends(e.t)), c |-> e.t[e.c + 1]]

Empty(q) == q = <<>>
Incomplete(q) == Len(q) # 1 \/ ~Ends(Head(q).t)
============================================================================
