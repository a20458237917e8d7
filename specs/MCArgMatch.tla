---------------------------- MODULE MCArgMatch ----------------------------
(* All small definitions, each judged on all short lines.                  *)
EXTENDS ArgMatch
CONSTANTS MaxOps, MaxWords
VARIABLES S, n
A == <<"a">>  B == <<"b">>  F == <<"-", "f">>  G == <<"-", "g">>  E == <<"-", "-">>  K == <<"k">>
P(w) == [w |-> w, to |-> 0]
L(w) == [w |-> w, to |-> 2]
Start == New(New(NoMatchers, 1, K), 2, <<>>)
Ops == {<<"arg", 1, <<P(A)>>>>, <<"arg", 1, <<L(A), P(B)>>>>, <<"arg", 1, <<>>>>, <<"arg", 1, <<L(A), L(B)>>>>, <<"arg", 2, <<P(B)>>>>, <<"arg", 2, <<P(A), P(Files)>>>>,
        <<"flags", 1, <<P(F)>>>>, <<"flags", 1, <<L(G)>>>>, <<"flags", 2, <<P(F)>>>>, <<"loop", 1, 1>>, <<"loop", 2, 1>>, <<"nofiles", 1>>, <<"nofiles", 2>>, <<"chain", 2>>, <<"any", 1>>, <<"end", 1>>, <<"hide", 1>>}
Apply(o) ==
  CASE o[1] = "arg" -> AddArg(S, o[2], o[3]) [] o[1] = "flags" -> AddFlags(S, o[2], o[3])
    [] o[1] = "loop" -> [S EXCEPT !.obj[o[2]].loop = o[3]] [] o[1] = "nofiles" -> [S EXCEPT !.obj[o[2]].nofiles = TRUE]
    [] o[1] = "chain" -> SetChain(S, o[2]) [] o[1] = "any" -> [S EXCEPT !.obj[o[2]].any = FALSE]
    [] o[1] = "end" -> SetEnd(S, o[2], E) [] o[1] = "hide" -> HideFlags(S, o[2], {F})
Init == S = Start /\ n = 0
Next == n < MaxOps /\ n' = n + 1 /\ \E o \in Ops : S' = Apply(o)
Spec == Init /\ [][Next]_<<S, n>>
Words == {A, B, F, G, E}
Lines == UNION {[1..k -> Words] : k \in 0..MaxWords}
W(t) == [t |-> t, redir |-> FALSE]
Line(l) == <<W(K)>> \o [k \in 1..Len(l) |-> W(l[k])]
Reading(l) == Read(S, Line(l), 2, Len(l) + 1, <<Frame(1, FALSE)>>)
\* The state in which the word after those of l is read.
Before(l, w) == Read(S, Append(Line(l), W(w)), 2, Len(l) + 1, <<Frame(1, FALSE)>>)
\* A word is recognized exactly when it is offered (or hidden, or ends the flags).
OfferedIsRecognized ==
  \A l \in Lines : Len(l) < MaxWords => \A w \in Words :
    LET r == Before(l, w)
        x == Word(S, r.st, w, TRUE, <<>>, FALSE)
        o == Offer(S, r.st, w)
        t == Top(r.st)
    IN r.at = 0 /\ ~x.chain =>
         /\ w \in o.words => x.class \in {"a", "f"}
         /\ x.class \in {"a", "f"} => w \in o.words \/ w \in S.obj[t.m].flags.hidden \/ w = S.obj[t.m].end
\* A reader never leaves the command's matcher, and stays in a position there is or just after the last.
Sound ==
  \A l \in Lines : LET r == Reading(l) IN
    /\ r.st # <<>> /\ r.st[1].m = 1 /\ ~r.st[1].f
    /\ \A k \in 1..Len(r.st) : r.st[k].a >= (IF NArgs(S, r.st[k]) = 0 THEN 0 ELSE 1)
    /\ ~Top(r.st).f
\* Without links an argument takes the next position, whatever flags stand between.
Unlinked(m) == S.obj[m].flags.links = <<>> /\ \A p \in 1..Len(S.obj[m].args) : S.obj[m].args[p].links = <<>>
PlainWords(l) == SelectSeq(l, LAMBDA w : w \in {A, B})
FlagsDontCount ==
  Unlinked(1) /\ S.obj[1].any /\ S.obj[1].end = <<>> /\ S.obj[1].has /\ S.obj[1].pre # {} =>
    \A l \in Lines : LET p == PlainWords(l)
                         r == Reading(l)
                         q == Reading(p)
                     IN r.st = q.st
Positions ==
  Unlinked(1) => \A l \in Lines : l = PlainWords(l) => LET r == Reading(l) IN
    /\ Len(r.st) = 1
    /\ LET k == NArgs(S, r.st[1]) IN r.st[1].a = IF k > 0 /\ Looping(S, r.st[1]) THEN (Len(l) % k) + 1 ELSE IF k = 0 /\ Looping(S, r.st[1]) THEN (IF l = <<>> THEN 1 ELSE 0) ELSE Len(l) + 1
\* A linked word hands over to its matcher, and an exhausted one hands back.
Back ==
  LET o == S.obj[1]  z == S.obj[2] IN
  Len(o.args) >= 2 /\ Linked(o.args[1], A) = 2 /\ o.flags.links = <<>> /\ o.any /\ Len(z.args) = 1 /\ ~z.nofiles /\ z.loop = 0 /\ o.loop = 0 /\ z.args[1].links = <<>> =>
    /\ Reading(<<A>>).st = <<[Frame(1, FALSE) EXCEPT !.a = 2], Frame(2, FALSE)>>
    /\ Reading(<<A, B>>).st = <<[Frame(1, FALSE) EXCEPT !.a = 2]>>
=============================================================================
