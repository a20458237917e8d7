----------------------------- MODULE BinderTrace -----------------------------
EXTENDS Binder, TraceLib
VARIABLES i, b, r
Check(k, e, R) == Match("group", k, e.group, R.group) /\ r' = R
Next(k, e) ==
  CASE e.op = "reset" -> b' = NewBinder /\ r' = NewResolver(1)
    [] e.op = "group" -> \E x \in {CreateGroup(b, e.n)} : Match("group id", k, e.r, x.r) /\ b' = x.b /\ Check(k, e, r)
    [] e.op = "find" -> Match("group id", k, e.r, FindGroup(b, e.n)) /\ Check(k, e, r) /\ UNCHANGED b
    [] e.op = "bind" -> \E x \in {Bind(b, e.g, e.t, e.m, e.id, e.p)} : Match("bound", k, e.r, x.r) /\ b' = x.b /\ Check(k, e, r)
    [] e.op = "setgroup" -> \E x \in {DoSetGroup(b, r, e.g)} : Check(k, e, x) /\ UNCHANGED b
    [] e.op = "step" -> \E x \in {DoStep(b, r, e.k)} : Match("sequence complete", k, e.r, x.done) /\ Check(k, e, x.r) /\ UNCHANGED b
    [] e.op = "next" -> \E x \in {DoNext(b, r)} :
         /\ IF x.out = None THEN Match("no binding", k, e.r, FALSE)
            ELSE /\ Match("binding", k, e.r, TRUE)
                 /\ Match("binding", k, [m |-> e.m, id |-> e.id, len |-> Len(e.c), ps |-> e.ps], x.out)
                 /\ Match("keys", k, e.c, SubSeq(r.keys, 1, x.out.len))
                 /\ Match("more", k, e.more, Len(r.keys) > x.out.len)
         /\ Check(k, e, x.r) /\ UNCHANGED b
    [] e.op = "claim" -> Match("claim", k, e.r, r.cur # None) /\ Check(k, e, DoClaim(r)) /\ UNCHANGED b
    [] e.op = "isbound" -> Match("is bound", k, e.r, IsBound(b, r.group, e.t)) /\ Check(k, e, r) /\ UNCHANGED b
Spec == i = 1 /\ b = NewBinder /\ r = NewResolver(1) /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_<<i, b, r>>
=============================================================================
