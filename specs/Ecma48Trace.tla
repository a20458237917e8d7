---------------------------- MODULE Ecma48Trace ----------------------------
EXTENDS Ecma48, TraceLib
VARIABLES i
Plainly(ps) == <<>> \o [n \in 1..Len(ps) |-> Piece(ps[n].k, ps[n].c, ps[n].s)]
\* Titles are seen through the pieces; what a CSI means is reported with it.
Decoded(ps) == \A n \in 1..Len(ps) :
   LET want == IF ps[n].k = "c1" /\ ps[n].c = 91
               THEN LET d == Decode(ps[n].s, 8) IN <<d.final, d.inter, d.priv, d.p>> ELSE <<>>
       got == IF "final" \in DOMAIN ps[n] THEN <<ps[n].final, ps[n].inter, ps[n].priv, ps[n].p>> ELSE <<>>
   IN Match("meaning", n, got, want)
Next(k, e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "split" -> Match("pieces", k, Merged(Plainly(e.out)), Merged(Pieces(e.t))) /\ Decoded(e.out)
    [] e.op = "proc" ->
         \E r \in {Proc(e.t, e.flags)} : \E out \in {ProcOut(r)} :
           /\ Match("output", k, e.out, out) /\ Match("output alone", k, e.out2, out)
           /\ Match("cells", k, e.cells, ProcCells(r)) /\ Match("cells alone", k, e.cells2, ProcCells(r))
           /\ Match("cell count", k, e.count, CellCount(e.t)) /\ Match("cell count of a part", k, e.count2, CellCount(e.t))
    [] e.op = "wrap" -> Match("lines", k, e.out, LET ls == Wrapped(e.t, e.w) IN <<>> \o [n \in 1..Len(ls) |-> ls[n] \o <<"u0a">>])
    [] e.op = "term" -> Match("screen", k, Joined(e.out), Joined(Calls(e.t)))
    [] e.op = "long" -> Match("long text", k, e.out, <<4>> \o (IF e.n = 0 THEN <<>> ELSE <<e.n>>) \o <<3>>) /\ Match("long count", k, e.count, e.n)
Spec == i = 1 /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_i
=============================================================================
