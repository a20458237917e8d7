---------------------------- MODULE DoskeyTrace ----------------------------
EXTENDS Doskey, TraceLib
VARIABLES i, macros, enh
With(name, text) == [x \in DOMAIN macros \cup {Lower(name)} |-> IF x = Lower(name) THEN text ELSE macros[x]]
Without(name) == [x \in DOMAIN macros \ {Lower(name)} |-> macros[x]]
NoMacros == [x \in {} |-> <<>>]
Total(ls) == LET RECURSIVE n(_) n(k) == IF k = 0 THEN 0 ELSE n(k - 1) + Len(ls[k]) + 1 IN n(Len(ls))
Next(k, e) ==
  CASE e.op = "reset"   -> macros' = NoMacros /\ enh' = e.enh
    [] e.op = "alias"   -> macros' = With(e.n, e.t) /\ UNCHANGED enh
    [] e.op = "unalias" -> macros' = Without(e.n) /\ UNCHANGED enh
    [] e.op = "resolve" ->
         \E x \in {Expand(macros, e.t, enh)} : \E any \in {Applies(macros, e.t, enh)} :
            /\ Match("lines", k, e.out, IF any THEN Lines(x) ELSE <<>>)
            /\ Match("lines without a cursor", k, e.out2, e.out)
            \* the cursor lands inside the text
            /\ Match("cursor", k, e.point, IF e.point < 0 THEN 0
                 ELSE IF ~any THEN e.point ELSE IF e.point > Len(x) /\ e.from <= Len(e.t) THEN Len(x) ELSE e.point)
            /\ UNCHANGED <<macros, enh>>
Spec == i = 1 /\ macros = NoMacros /\ enh = TRUE /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_<<i, macros, enh>>
=============================================================================
