-------------------------------- MODULE Coro --------------------------------
(* Background coroutines (clink/lua/scripts/coroutines.lua): what runs when *)
(* the editor is idle, how processes started by coroutines are kept one at  *)
(* a time per category, and what each coroutine sees of its surroundings.   *)
(* Time is in quarter seconds.  A function that may go several ways gives   *)
(* the set of its results, each [st, log].                                  *)
EXTENDS Integers, Sequences, FiniteSets
Ids == 1..9
NoCo == [live |-> "no", known |-> FALSE, gen |-> 0, until |-> FALSE, can |-> FALSE, iv |-> 0,
         last |-> -1, first |-> -1, thr |-> -1, pc |-> 1, w |-> "", till |-> 0, gi |-> 0, pcl |-> 0,
         cwd |-> "", rl |-> 0]
NoProg == [cat |-> "", iv |-> 0, prog |-> <<>>]
InitSt(thr) == [co |-> [x \in Ids |-> NoCo], g |-> <<>>, now |-> 400, gen |-> 0, cwd |-> "d0", rl |-> 0,
                pend |-> <<>>, thr |-> thr, prog |-> [x \in Ids |-> NoProg]]
Rec(k, n, p, c, l) == [k |-> k, n |-> n, p |-> p, c |-> c, l |-> l]

\* A process's output is complete, or it has ended.
Ready(p) == IF p.need THEN p.exit ELSE p.out \/ p.exit
Others(st, id) == {x \in DOMAIN st.g : (st.co[id].known \/ st.co[id].w = "queue") /\ st.g[x].held /\ st.prog[id].cat # "" /\ st.g[x].cat = st.prog[id].cat}
Busy(st, id) == \E x \in Others(st, id) : ~Ready(st.g[x])
Held(st, id) == Others(st, id) # {}
Guarding(st, id) == st.co[id].w = "guard" /\ ~Ready(st.g[st.co[id].gi])
Release(st) ==
  LET done == {x \in DOMAIN st.g : st.g[x].held /\ Ready(st.g[x])} IN
  [st EXCEPT !.g = [x \in DOMAIN st.g |-> IF x \in done THEN [st.g[x] EXCEPT !.held = FALSE] ELSE st.g[x]],
             !.co = [y \in Ids |-> IF \E x \in done : st.g[x].id = y /\ st.co[y].known THEN [st.co[y] EXCEPT !.thr = st.now] ELSE st.co[y]]]
Current(st, id) == st.co[id].known /\ (st.co[id].gen = st.gen \/ st.co[id].until)
Forget(st, id) == [Release(st) EXCEPT !.co[id].known = FALSE]

Create(st, id) ==
  IF st.co[id].live # "no" THEN st
  ELSE [st EXCEPT !.co[id] = [NoCo EXCEPT !.live = "s", !.known = TRUE, !.gen = st.gen, !.iv = st.prog[id].iv, !.cwd = st.cwd, !.rl = st.rl]]

Wait(st, id, w) == [st EXCEPT !.co[id].w = w]
Out(st, log) == {[st |-> st, log |-> log]}
Dead(st, id) == [st EXCEPT !.co[id].live = "dead", !.co[id].w = ""]
On(st, id) == [st EXCEPT !.co[id].pc = @ + 1, !.co[id].w = ""]

RECURSIVE Go(_, _, _), Resume(_, _, _), Got(_, _, _)
\* The process of the current operation may begin.
Proc(st, id, log) ==
  LET c == st.co[id]  o == st.prog[id].prog[c.pc].o IN
  IF ~Current(st, id) THEN Out(Dead([st EXCEPT !.co[id].can = @ \/ st.co[id].known], id), log)
  ELSE Out([st EXCEPT !.g = Append(@, [id |-> id, p |-> c.pc, cat |-> st.prog[id].cat, out |-> FALSE, exit |-> FALSE, need |-> o = "x", held |-> TRUE]),
                      !.co[id].w = "guard", !.co[id].gi = Len(st.g) + 1],
           Append(log, Rec("s", id, c.pc, "", 0)))
Try(st, id, log) ==
  (IF Held(st, id) THEN Out(Wait(st, id, "queue"), log) ELSE {})
  \union (IF Busy(st, id) THEN {} ELSE Proc(Release(st), id, log))
Go(st, id, log) ==
  LET c == st.co[id] IN
  IF c.pc > Len(st.prog[id].prog) THEN Out(Dead(st, id), Append(log, Rec("d", id, 0, "", 0)))
  ELSE
  LET op == st.prog[id].prog[c.pc]  o == op.o  n == op.n
      l == Append(log, Rec("o", id, c.pc, st.cwd, st.rl))
      other == n \in Ids /\ n # id /\ (IF n \in Ids THEN st.co[n].live = "s" ELSE FALSE)
  IN
  CASE o = "y" -> Out(Wait(st, id, "yield"), l)
    [] o \in {"p", "q", "x"} -> Try(st, id, l)
    [] o = "w" -> IF c.pcl = 0 THEN Go(On(st, id), id, l)
                  ELSE UNION {LET t == IF h THEN Release(st) ELSE st IN
                              LET r == [t EXCEPT !.g[c.pcl].need = TRUE, !.g[c.pcl].held = TRUE, !.g[c.pcl].cat = IF h THEN @ ELSE "",
                                                 !.co[id].gi = c.pcl, !.co[id].w = "guard"] IN
                              IF r.g[c.pcl].exit THEN Got(Release(r), id, l) ELSE Out(r, l)
                              : h \in IF ~c.known \/ Busy(st, id) THEN {FALSE} ELSE IF Held(st, id) THEN {TRUE, FALSE} ELSE {TRUE}}
    [] o = "m" -> Go([On(st, id) EXCEPT !.pend = IF \E x \in DOMAIN @ : @[x] = n THEN @ ELSE Append(@, n)], id, l)
    [] o = "e" -> Out(Dead(st, id), l)
    [] o = "c" -> Go(Create(On(st, id), n), id, l)
    [] o = "u" -> Go(IF c.known THEN [On(st, id) EXCEPT !.co[id].until = TRUE] ELSE On(st, id), id, l)
    [] o \in {"i", "j"} -> Go(IF c.known THEN [On(st, id) EXCEPT !.co[id].iv = n] ELSE On(st, id), id, l)
    [] o = "d" -> Go([On(st, id) EXCEPT !.cwd = op.c], id, l)
    [] o = "l" -> Go([On(st, id) EXCEPT !.rl = n], id, l)
    [] o = "f" -> Go(IF other THEN Forget(On(st, id), n) ELSE On(st, id), id, l)
    [] o = "z" -> IF n = 0 THEN Go(On(st, id), id, l) ELSE Out([st EXCEPT !.co[id].w = "sleep", !.co[id].till = st.now + n], l)
    [] o = "r" -> IF other THEN UNION {Go(r.st, id, r.log) : r \in Resume(On(st, id), n, Append(l, Rec("n", n, 0, "", 0)))}
                  ELSE Go(On(st, id), id, l)
\* The operation at which the coroutine waits is over, with this outcome.
Got(st, id, log) ==
  LET c == st.co[id]  o == st.prog[id].prog[c.pc].o  s == On(st, id) IN
  CASE o \in {"x", "w"} -> Go([s EXCEPT !.co[id].pcl = IF o = "w" THEN 0 ELSE @], id, Append(log, Rec("c", id, c.pc, "", 7)))
    [] o = "p" -> Go(s, id, Append(log, Rec("g", id, c.pc, "f", 0)))
    [] o = "q" -> Go([s EXCEPT !.co[id].pcl = c.gi], id, Append(log, Rec("g", id, c.pc, "f", 0)))
Canceled(st, id, log) ==
  LET c == st.co[id]  o == st.prog[id].prog[c.pc].o  s == On(st, id) IN
  IF o = "x" THEN Go(s, id, Append(log, Rec("c", id, c.pc, "", -1)))
  ELSE Go([s EXCEPT !.co[id].pcl = IF o = "q" THEN 0 ELSE @], id, Append(log, Rec("g", id, c.pc, "n", 0)))
Wake(st, id, log) ==
  LET c == st.co[id] IN
  CASE c.w = "" -> Go(st, id, log)
    [] c.w = "yield" -> Go(On(st, id), id, log)
    [] c.w = "sleep" -> IF st.now >= c.till THEN Go(On(st, id), id, log) ELSE Out(st, log)
    [] c.w = "guard" -> IF Ready(st.g[c.gi]) THEN Got(Release(st), id, log) ELSE Out(st, log)
    [] c.w = "queue" -> IF c.can /\ c.known THEN Canceled(st, id, log) ELSE Try(st, id, log)
\* Runs the coroutine until it waits or ends.  It has its own directory and
\* (a match generator's) line state; those of the resumer come back after.  A
\* forgotten coroutine's directory may also be the resumer's.
Resume(st, id, log) ==
  LET c == st.co[id]  known == c.known  gen == known /\ st.prog[id].cat = "generator"
      S(own) == [st EXCEPT !.cwd = own, !.rl = IF gen THEN c.rl ELSE @, !.co[id].live = "run"]
      Back(t) == [t EXCEPT !.cwd = st.cwd, !.rl = IF gen THEN st.rl ELSE @,
                           !.co[id].live = IF @ = "run" THEN "s" ELSE @,
                           !.co[id].cwd = t.cwd,
                           !.co[id].rl = IF gen THEN t.rl ELSE @]
  IN UNION {{[st |-> Back(r.st), log |-> r.log] : r \in Wake(S(own), id, log)} : own \in {c.cwd} \union (IF known THEN {} ELSE {st.cwd})}

\* What was queued for the main coroutine runs, in order, when a coroutine
\* that it resumed comes back.
RECURSIVE MainRuns(_, _, _), MainResume(_, _, _)
Fn(st, n, log) ==
  LET l == Append(log, Rec("m", n, 0, st.cwd, st.rl)) IN
  IF n > 30 THEN Out(Create(st, n - 30), l)
  ELSE IF n > 20 THEN (IF st.co[n - 20].live = "s" THEN MainResume(st, n - 20, l) ELSE Out(st, l))
  ELSE Out(st, l)
MainRuns(st, fns, log) ==
  IF fns = <<>> THEN Out(st, log)
  ELSE UNION {MainRuns(r.st, Tail(fns), r.log) : r \in Fn(st, Head(fns), log)}
MainResume(st, id, log) ==
  UNION {MainRuns([r.st EXCEPT !.pend = <<>>], r.st.pend, r.log) : r \in Resume(st, id, Append(log, Rec("r", id, 0, "", 0)))}

\* When the coroutine is to be resumed next.
Every(st, c) ==
  IF st.thr > 0 /\ c.iv < st.thr
     /\ LET b == IF c.thr >= 0 THEN c.thr ELSE c.first IN (b >= 0 /\ st.now - b > 20) \/ (c.first >= 0 /\ st.now - c.first > 120)
  THEN st.thr ELSE c.iv
Target(st, c) ==
  IF c.last < 0 THEN 0
  ELSE IF c.w = "sleep" /\ c.till >= st.now THEN c.till
  ELSE c.last + Every(st, c)
Due(st, id) == LET c == st.co[id] IN Target(st, c) <= st.now /\ (c.w = "sleep" => st.now >= c.till)
Known(st) == {x \in Ids : st.co[x].known}
\* How long to wait for input before resuming coroutines; -1: forever.
Timeout(st) ==
  LET ts == {Target(st, st.co[x]) : x \in {y \in Known(st) : ~Guarding(st, y) /\ ~(st.co[y].w = "queue" /\ Busy(st, y))}} IN
  IF ts = {} THEN -1
  ELSE LET m == CHOOSE x \in ts : \A y \in ts : x <= y IN IF m > st.now THEN m - st.now ELSE 0

\* A new input line begins: coroutines of the last one are forgotten, but for
\* the ones that are to complete and the ones whose process still runs.
Line(st) == [st EXCEPT !.gen = @ + 1,
  !.co = [x \in Ids |-> IF st.co[x].known /\ ~st.co[x].until /\ ~\E y \in DOMAIN st.g : st.g[y].held /\ st.g[y].id = x
                        THEN [st.co[x] EXCEPT !.known = FALSE] ELSE st.co[x]]]

\* One pass over the coroutines.
Obsolete(st) == {x \in Known(st) : st.co[x].live = "dead" \/ (~Current(st, x) /\ ~Guarding(st, x))}
Begin(st) ==
  LET o == Obsolete(st)  s == IF o = {} THEN st ELSE Release(st) IN
  [s EXCEPT !.co = [x \in Ids |-> IF x \in o THEN [s.co[x] EXCEPT !.known = FALSE, !.can = @ \/ s.co[x].live # "dead"] ELSE s.co[x]]]
\* The coroutine is resumed in its turn.
Turn(st, id, log) ==
  LET c == st.co[id]
      s == [st EXCEPT !.co[id].first = IF @ < 0 THEN st.now ELSE @, !.co[id].thr = IF c.w = "sleep" THEN st.now ELSE @]
  IN {[st |-> [r.st EXCEPT !.co[id].last = st.now], log |-> r.log] : r \in MainResume(s, id, log)}
End(st, gone) ==
  LET s == IF gone = {} THEN st ELSE Release(st) IN
  [s EXCEPT !.co = [x \in Ids |-> [s.co[x] EXCEPT !.known = @ /\ x \notin gone]]]
=============================================================================
