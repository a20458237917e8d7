--------------------------- MODULE HistoryTrace ---------------------------
(* Replays a recorded execution of the real history code on History.  Texts *)
(* and times are as recorded.  Unrecorded choices: the order in which       *)
(* leftovers are collected, and how far an operation got when the process   *)
(* died inside it.                                                          *)
EXTENDS History, TraceLib
IdsT == 1..4

VARIABLES i, h
vars == <<i, h>>

Perms(S) == IF S = {} THEN {<<>>} ELSE SetToSeqs(S)

\* Outcomes of collecting leftovers, cut short anywhere.
RECURSIVE CutReap(_, _, _)
CutReap(x, order, save) ==
  {x} \cup
  IF order = <<>> THEN {}
  ELSE LET k == Head(order)
           L == x.s[k]
           full == ReapOne(x, k, save)
           app == [x EXCEPT !.m.recs = @ \o L.lines]
           n == IF L.rem.has /\ L.rem.ctag = x.m.ctag THEN Len(L.rem.offs) ELSE 0
           part == IF save /\ ~L.local
                   THEN {[app EXCEPT !.m.recs = KillAll(@, ToSet(SubSeq(L.rem.offs, 1, j)))] : j \in 0..n}
                   ELSE {}
           \* its removals file is deleted before its session file
           norem == {[y EXCEPT !.s[k].rem = NoRem] :
                     y \in IF save /\ ~L.local THEN {ReapPart(x, k, TRUE)} ELSE {x}}
       IN part \cup norem \cup CutReap(full, Tail(order), save)


Heads(q) == {SubSeq(q, 1, j) : j \in 0..Len(q)}

Cfg(e) == [shared |-> e.shared, save |-> e.save, dupe |-> e.dupe, ts |-> e.tson,
           igns |-> e.igns, limit |-> e.limit, thr |-> e.thr]

\* Complete outcomes: set of [h, r].
Full(e) ==
  CASE e.op = "start" ->
         LET x == Start(h, e.s, Cfg(e), <<>>)
             R == Reapable(x) \ {e.s}
         IN IF e.save /\ e.shared THEN {[h |-> x, r |-> 0]}
            ELSE {[h |-> ReapAll(x, o, e.save), r |-> 0] : o \in Perms(R)}
    [] e.op = "exit" ->
         LET x == KillSession(h, e.s) IN
         {[h |-> ReapAll(x, o, h.s[e.s].save), r |-> 0] : o \in Perms(Reapable(x))}
    [] e.op = "kill"  -> {[h |-> KillSession(h, e.s), r |-> 0]}
    [] e.op = "add"   -> {Add(h, e.s, e.v, e.empty \/ (e.blank /\ h.s[e.s].igns), e.t, 0)}
    [] e.op = "rm"    -> {RemoveText(h, e.s, e.v)}
    [] e.op = "rmidx" -> {RemoveIndex(h, e.s, e.n)}
    [] e.op = "rmfound" -> \* the n-th line it sees now
         LET mv == MasterView(h, e.s)
             sv == SessionView(h, e.s)
             x  == IF e.n <= Len(mv) THEN [b |-> 0, p |-> mv[e.n].p] ELSE [b |-> 1, p |-> sv[e.n - Len(mv)].p]
             \* the recall list follows when it was loaded
             drop(g) == LET at == {j \in 1..Len(g.s[e.s].idx) : g.s[e.s].idx[j] = x} IN
                        IF at = {} THEN g
                        ELSE LET j == CHOOSE j \in at : TRUE IN
                             IF x.b = 0 THEN [g EXCEPT !.s[e.s].idx = RemoveAt(@, j), !.s[e.s].mlen = @ - 1, !.s[e.s].mdel = @ + 1]
                             ELSE [g EXCEPT !.s[e.s].idx = RemoveAt(@, j)]
         IN IF e.n > Len(mv) + Len(sv) THEN {[h |-> h, r |-> FALSE]}
            ELSE IF x.b = 0 THEN (IF h.s[e.s].mctag # h.m.ctag THEN {[h |-> h, r |-> FALSE]}
                                  ELSE {[h |-> drop(RemoveMaster(h, e.s, <<x.p>>)), r |-> TRUE]})
                 ELSE {[h |-> drop([h EXCEPT !.s[e.s].lines = Kill1(@, x.p)]), r |-> TRUE]}
    [] e.op = "find"  -> {[h |-> h, r |-> (Positions(MasterView(h, e.s), e.v) # <<>> \/ Positions(SessionView(h, e.s), e.v) # <<>>)]}
    [] e.op = "clear" -> {[h |-> Clear(h, e.s), r |-> 0]}
    [] e.op = "compact" ->
         LET x == Compact(h, e.s, TRUE, e.uniq, e.limit) IN {[h |-> Load(x.h, e.s, FALSE), r |-> x.r]}
    [] e.op = "load"  -> {[h |-> Load(h, e.s, TRUE), r |-> 0]}

\* Outcomes when the process dies inside the operation (the session is ended
\* by Apply).  Operations on one file take effect record by record.
Cut(e) ==
  CASE e.op = "start" ->
         LET x0 == IF e.save /\ h.m.ctag = 0 THEN [h EXCEPT !.m.ctag = h.next, !.next = @ + 1] ELSE h
             x  == Start(h, e.s, Cfg(e), <<>>)
             \* its files exist up to the point it reached
             y  == [x EXCEPT !.s[e.s].rem = h.s[e.s].rem]
             nolines(z) == [z EXCEPT !.s[e.s].file = h.s[e.s].file, !.s[e.s].local = h.s[e.s].local, !.s[e.s].rem = h.s[e.s].rem]
             cut == UNION {CutReap(x, o, e.save) : o \in Perms(Reapable(x) \ {e.s})}
         IN {h, x0, nolines(x), y, x} \cup (IF e.save /\ e.shared THEN {} ELSE cut)
            \cup {[x EXCEPT !.s[e.s].rem = NoRem]}
    [] e.op = "exit" ->
         LET x == KillSession(h, e.s) IN UNION {CutReap(x, o, h.s[e.s].save) : o \in Perms(Reapable(x))}
    [] e.op = "add" ->
         \* erased duplicates, then the line: any prefix of that
         LET full == Full(e)
             v == e.v
             mp == Positions(MasterView(h, e.s), v)
             sp == Positions(SessionView(h, e.s), v)
         IN {h} \cup {x.h : x \in full}
            \cup (IF h.s[e.s].dupe = "erase_prev"
                  THEN {RemoveMaster(h, e.s, q) : q \in Heads(mp)}
                       \cup {[RemoveMaster(h, e.s, mp) EXCEPT !.s[e.s].lines = KillAll(@, ToSet(q))] : q \in Heads(sp)}
                  ELSE {})
    [] e.op = "rm" ->
         LET mp == Positions(MasterView(h, e.s), e.v)
             sp == Positions(SessionView(h, e.s), e.v)
         IN {RemoveMaster(h, e.s, q) : q \in Heads(mp)}
            \cup {[RemoveMaster(h, e.s, mp) EXCEPT !.s[e.s].lines = KillAll(@, ToSet(q))] : q \in Heads(sp)}
    [] OTHER -> {h} \cup {x.h : x \in Full(e)}

SkipEvent(e) == e.op \in {"ls"}

\* The views of the other running sessions and of a fresh reader.
Plain(q) == [j \in 1..Len(q) |-> [v |-> q[j].v, ts |-> q[j].ts, b |-> q[j].b]]
ViewsOk(k, e, x) ==
  \A j \in 1..Len(e.views) :
    Match("view of session " \o ToString(e.views[j].s), k, Plain(e.views[j].view), View(x, e.views[j].s))
FreshView(x) ==
  LET mv == Read(x.m.recs, {}).out IN [j \in 1..Len(mv) |-> [v |-> mv[j].v, ts |-> mv[j].ts, b |-> 0]]

HasR(e) == e.op \in {"add", "rm", "rmidx", "rmfound", "find", "compact"}
\* What readline recalls after a load.
RlView(x, s) ==
  LET V == x.s[s].idx
      mv == Read(x.m.recs, RemSet(x, s)).out
      sv == SessionView(x, s)
      pick(en) == IF en.b = 0 THEN (CHOOSE y \in ToSet(mv) : y.p = en.p) ELSE (CHOOSE y \in ToSet(sv) : y.p = en.p)
  IN [j \in 1..Len(V) |-> [v |-> pick(V[j]).v, ts |-> pick(V[j]).ts]]

Init == i = 1 /\ h = InitH
Apply(k, e) ==
  IF e.op = "reset" THEN h' = InitH
  ELSE IF SkipEvent(e) THEN h' = h
  ELSE IF e.op = "peek" THEN /\ h' = IF h.m.ctag = 0 THEN [h EXCEPT !.m.ctag = h.next, !.next = @ + 1] ELSE h
                             /\ Match("fresh reader", k, Plain(e.view), FreshView(h))
  ELSE IF e.lived
  THEN \E x \in Full(e) :
         /\ HasR(e) => Match("result", k, e.r, x.r)
         /\ ViewsOk(k, e, x.h)
         /\ e.op = "load" => Match("recall list", k, [j \in 1..Len(e.rl) |-> [v |-> e.rl[j].v, ts |-> e.rl[j].ts]], RlView(x.h, e.s))
         /\ h' = x.h
  ELSE \E x \in (IF e.op = "kill" THEN {h} ELSE Cut(e)) :
         /\ ViewsOk(k, e, KillSession(x, e.s))
         /\ h' = KillSession(x, e.s)

Next == i <= Len(Trace) /\ i' = i + 1 /\ Apply(i, Trace[i])
Spec == Init /\ [][Next]_vars
=============================================================================
