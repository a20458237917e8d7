--------------------------- MODULE MatchesTrace ---------------------------
EXTENDS Matches, TraceLib
VARIABLES i, o, items, gopt, cs, vis, ord, fc
\* cs: candidates; vis: ordinals of the visible ones; ord: those whose original order is known
\* fc: <<explicit files (-1: no), any pathish, all pathish>>
vars == <<i, o, items, gopt, cs, vis, ord, fc>>
Set(s) == {s[k] : k \in 1..Len(s)}
Rec(c) == [m |-> c.m, t |-> c.t, d |-> c.d, e |-> c.e]
\* The filename modes as observed.
FcWant(f) == IF f[1] >= 0 THEN f[1] = 1 ELSE f[2]
FdWant(f) == IF f[1] >= 0 THEN f[1] = 1 ELSE f[2] /\ f[3]
\* What is visible, in any order.
Shows(k, e, C, V, f) ==
  LET want == {Rec(c) : c \in {x \in Set(C) : x.n \in V}}
  IN /\ Match("count", k, e.count, Cardinality(V))
     /\ Match("visible, not expected", k, Set(e.vis) \ want, {})
     /\ Match("expected, not visible", k, want \ Set(e.vis), {})
     /\ Match("visible count", k, Len(e.vis), Cardinality(V))
     /\ Match("filename completion", k, e.fc, FcWant(f))
     /\ Match("filename display", k, e.fd, FdWant(f))
\* After select or restrict, the implicit modes follow the visible ones.
Modes(C, V) == LET ts == {c.t : c \in {x \in Set(C) : x.n \in V}}
               IN <<fc[1], \E t \in ts : Pathish(t), \A t \in ts : Pathish(t)>>
Next(k, e) ==
  CASE e.op = "reset" -> /\ o' = [wild |-> e.wild, sub |-> e.sub, sort |-> e.sort, rlh |-> e.rlh, hid |-> e.hid, sys |-> e.sys, mode |-> e.mode, fuzzy |-> e.fuzzy, tr |-> e.tr]
                         /\ items' = <<>> /\ gopt' = [nosort |-> FALSE, files |-> -1, dep |-> FALSE]
                         /\ cs' = <<>> /\ vis' = {} /\ ord' = {} /\ fc' = <<-1, FALSE, FALSE>>
    [] e.op = "item" -> items' = Append(items, [m |-> e.m, t |-> e.t, d |-> e.d, e |-> e.e]) /\ UNCHANGED <<o, gopt, cs, vis, ord, fc>>
    [] e.op = "gopt" -> gopt' = [nosort |-> e.nosort, files |-> e.files, dep |-> e.dep] /\ UNCHANGED <<o, items, cs, vis, ord, fc>>
    [] e.op = "gen" ->
         \E sep \in {IF e.async THEN "" ELSE FirstSep(e.w)} :
         \E a \in {AddAll(o, sep, gopt.files, items, <<<<>>, <<>>>>)} :
         \E r \in {Resolved(o, sep, gopt.files, gopt.dep, a[1])} :
           /\ cs' = r /\ vis' = {c.n : c \in Set(r)} /\ ord' = vis' /\ fc' = <<gopt.files, FALSE, FALSE>>
           /\ Match("accepted", k, e.acc, a[2])
           /\ Shows(k, e, r, vis', fc')
           /\ UNCHANGED <<o, items, gopt>>
    [] e.op = "select" ->
         /\ vis' = Selected(o, e.needle, Set(cs)) /\ ord' = ord
         /\ fc' = Modes(cs, vis')
         /\ Shows(k, e, cs, vis', fc')
         /\ UNCHANGED <<o, items, gopt, cs>>
    [] e.op = "restrict" ->
         /\ vis' = Restricted(o, e.needle, Set(cs)) /\ ord' = ord
         /\ cs' = SelectSeq(cs, LAMBDA c : c.n \in vis')
         /\ fc' = Modes(cs, vis')
         /\ Match("needle left", k, e.left, NeedleLeft(e.needle))
         /\ Shows(k, e, cs, vis', fc')
         /\ UNCHANGED <<o, items, gopt>>
    [] e.op = "keep" ->
         /\ vis' = {c.n : c \in {x \in Set(cs) : x.m \in Set(e.list)}} /\ ord' = ord
         /\ cs' = SelectSeq(cs, LAMBDA c : c.n \in vis')
         /\ fc' = Modes(cs, vis')
         /\ Shows(k, e, cs, vis', fc')
         /\ UNCHANGED <<o, items, gopt>>
    [] e.op = "sort" ->
         /\ Shows(k, e, cs, vis, fc)
         /\ IF gopt.nosort THEN Match("original order", k, SelectSeq(e.vis, LAMBDA x : x \in {Rec(c) : c \in {y \in Set(cs) : y.n \in ord}}),
                                 LET v == SelectSeq(cs, LAMBDA c : c.n \in vis \cap ord) IN <<>> \o [x \in 1..Len(v) |-> Rec(v[x])])
            ELSE Match("order", k, Ordered(o, e.vis), TRUE)
         /\ UNCHANGED <<o, items, gopt, cs, vis, ord, fc>>
    [] e.op = "lcd" ->
         /\ Shows(k, e, cs, vis, fc)
         /\ Match("common beginning", k, e.lcd, Common(o, e.vis))
         /\ UNCHANGED <<o, items, gopt, cs, vis, ord, fc>>
    [] e.op = "iter" ->
         /\ Shows(k, e, cs, vis, fc)
         /\ \E r \in {Iterated(o, e.pat, {x \in Set(cs) : x.n \in vis})} :
            LET got == {c \in Set(cs) : c.n \in r}
                v == SelectSeq(e.vis, LAMBDA x : \E c \in got : Rec(c) = x)
            IN /\ Match("iterated", k, e.res, <<>> \o [x \in 1..Len(v) |-> v[x].m])
               /\ gopt.files < 0 => /\ Match("iterated: filename completion", k, e.ifc, \E c \in got : Pathish(c.t))
                                    /\ Match("iterated: filename display", k, e.ifd, got # {} /\ \A c \in got : Pathish(c.t))
         /\ UNCHANGED <<o, items, gopt, cs, vis, ord, fc>>
    [] e.op = "copy" -> \* the copy's original order is the order shown when it was made
         /\ Shows(k, e, cs, vis, fc)
         /\ cs' = (<<>> \o [x \in 1..Len(e.vis) |-> CHOOSE c \in Set(cs) : Rec(c) = e.vis[x]]) \o SelectSeq(cs, LAMBDA c : c.n \notin vis)
         /\ ord' = vis
         /\ UNCHANGED <<o, items, gopt, vis, fc>>
    [] e.op = "bulk" -> \* N candidates, every other one begins with p
         /\ Match("all", k, e.all, e.n) /\ Match("selected", k, e.sel, e.n) /\ Match("selected by p", k, e.p, e.n \div 2)
         /\ UNCHANGED <<o, items, gopt, cs, vis, ord, fc>>
    [] e.op = "late" -> Match("late", k, e.ok, FALSE) /\ Shows(k, e, cs, vis, fc) /\ UNCHANGED <<o, items, gopt, cs, vis, ord, fc>>
Init == /\ i = 1 /\ o = [wild |-> TRUE] /\ items = <<>> /\ gopt = [nosort |-> FALSE, files |-> -1, dep |-> FALSE]
        /\ cs = <<>> /\ vis = {} /\ ord = {} /\ fc = <<-1, FALSE, FALSE>>
Spec == Init /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_vars
=============================================================================
