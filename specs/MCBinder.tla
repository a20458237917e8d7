------------------------------ MODULE MCBinder ------------------------------
(* The line editor's pump over small sets of bindings: every key is         *)
(* delivered once and in order, to the longest binding that fits.           *)
EXTENDS Binder, TLC
CONSTANTS MaxIn, Alphabet
VARIABLES b, r, in, out, phase
vars == <<b, r, in, out, phase>>
A == 97  B == 98  D1 == 49  D2 == 50
AlphabetQ == {A, B, D1}
AlphabetT == {A, B, D1, D2}
Chords == {<<A>>, <<A, B>>, <<A, B, A>>, <<A, B, A, B>>, <<B, B>>, <<A, Star, B>>, <<B, Star, A, Star, B>>}
CatchAll == <<>>
\* Sets of up to three chords, bound in some order, and a catch-all.
Sets == {s \in SUBSET Chords : Cardinality(s) <= 3 /\ ~({<<A, Star, B>>} \subseteq s /\ FALSE)}
RECURSIVE BindAll(_, _)
BindAll(x, s) == IF s = {} THEN Bind(x, 1, CatchAll, 9, 9, FALSE).b
                 ELSE LET c == CHOOSE y \in s : TRUE IN BindAll(Bind(x, 1, c, Len(c), Len(c), TRUE).b, s \ {c})
Init == /\ \E s \in Sets : b = BindAll(NewBinder, s)
        /\ r = NewResolver(1) /\ in = <<>> /\ out = <<>> /\ phase = "key"
Feed == /\ phase = "key" /\ Len(in) < MaxIn
        /\ \E k \in Alphabet : \E x \in {DoStep(b, r, k)} : in' = Append(in, k) /\ r' = x.r /\ phase' = IF x.done THEN "drain" ELSE "key"
        /\ UNCHANGED <<b, out>>
Drain == /\ phase = "drain"
         /\ \E x \in {DoNext(b, r)} :
              IF x.out = None THEN r' = x.r /\ phase' = "key" /\ out' = out
              ELSE /\ out' = Append(out, [keys |-> SubSeq(r.keys, 1, x.out.len), b |-> x.out, rest |-> r.keys])
                   /\ r' = DoClaim(x.r) /\ phase' = phase
         /\ UNCHANGED <<b, in>>
Spec == Init /\ [][Feed \/ Drain]_vars

RECURSIVE Delivered(_)
Delivered(o) == IF o = <<>> THEN <<>> ELSE o[1].keys \o Delivered(Tail(o))
\* Exactly once, in order: with a catch-all, what's delivered and what's being
\* read make up what was typed.
OnceInOrder == Delivered(out) \o r.keys = in
\* What's delivered is what the binding says, digits standing for parameters.
Shape(keys) == LET RECURSIVE go(_) go(k) == IF k > Len(keys) THEN <<>> ELSE IF keys[k] \in Digits THEN (IF k > 1 /\ keys[k - 1] \in Digits THEN <<>> ELSE <<P>>) \o go(k + 1) ELSE <<keys[k]>> \o go(k + 1) IN go(1)
Fitting == \A i \in 1..Len(out) : LET o == out[i] IN
  IF o.b.id = 9 THEN Len(o.keys) = 1 /\ o.b.ps = <<>>
  ELSE Shape(o.keys) \in DOMAIN b.tree[1].binds /\ Len(Shape(o.keys)) = o.b.m
\* No binding that fits more of the keys was available.
Longest == \A i \in 1..Len(out) : LET o == out[i] IN
  \A n \in 1..Len(o.rest) : LET s == Shape(SubSeq(o.rest, 1, n)) IN
     (s \in DOMAIN b.tree[1].binds /\ s[Len(s)] # P) => n <= Len(o.keys)
\* Nothing is held back that no binding can use.
Reading == phase = "key" => \/ r.keys = <<>>
                            \/ \E i \in 1..Len(b.tree[1].nodes) : LET q == b.tree[1].nodes[i] s == Shape(r.keys) IN Len(q) >= Len(s) /\ SubSeq(q, 1, Len(s)) = s
Params == \A i \in 1..Len(out) : Len(out[i].b.ps) = Cardinality({k \in 1..Len(Shape(out[i].keys)) : Shape(out[i].keys)[k] = P /\ out[i].b.id # 9})
=============================================================================
