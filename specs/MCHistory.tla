----------------------------- MODULE MCHistory -----------------------------
(***************************************************************************)
(* Interleavings of sessions over History, with the intent of every        *)
(* operation tracked separately (which entries the user still expects to   *)
(* recall, which ones somebody removed), so that the guarantees are stated *)
(* without reference to files, positions or tags.                          *)
(***************************************************************************)
EXTENDS History, TLC

Cfg(shared, save, dupe, lim) ==
  [shared |-> shared, save |-> save, dupe |-> dupe, ts |-> TRUE, igns |-> TRUE, limit |-> lim, thr |-> 1]
LimitsQ == {-1, 1}
CfgsQ == {Cfg(FALSE, TRUE, "erase_prev", 2), Cfg(TRUE, TRUE, "erase_prev", 2), Cfg(FALSE, TRUE, "add", 0)}
CfgsT == {Cfg(sh, sv, d, l) : sh \in BOOLEAN, sv \in BOOLEAN, d \in {"add", "ignore", "erase_prev"}, l \in {0, 2}}

CONSTANTS Texts, Cfgs, MaxAdds, MaxOps, Limits

VARIABLES h,        \* state of History
          must,     \* entries (by identity) that must stay recallable
          gone,     \* entries that some operation was meant to drop
          twice,    \* entries that a killed collector may have copied already
          n, ops    \* bounds: entries added, operations done

vars == <<h, must, gone, twice, n, ops>>

Perms(S) == SetToSeqs(S)

Gids(recs) == {recs[i].g : i \in {j \in 1..Len(recs) : recs[j].k = "L" /\ ~recs[j].d}}
AllGids(hh) == Gids(hh.m.recs) \cup UNION {Gids(hh.s[i].lines) : i \in Ids}
SeenBy(hh, s) == {MasterView(hh, s)[i].g : i \in 1..Len(MasterView(hh, s))}
                 \cup {SessionView(hh, s)[i].g : i \in 1..Len(SessionView(hh, s))}
SeenText(hh, s, v) ==
  {MasterView(hh, s)[i].g : i \in {j \in 1..Len(MasterView(hh, s)) : MasterView(hh, s)[j].v = v}}
  \cup {SessionView(hh, s)[i].g : i \in {j \in 1..Len(SessionView(hh, s)) : SessionView(hh, s)[j].v = v}}

Live(s) == h.s[s].st = "live"
Drop(S) == must' = must \ S /\ gone' = gone \cup (S \ {0}) /\ UNCHANGED twice
Keep == UNCHANGED <<must, gone, twice>>
\* Whatever disappears must be among those allowed to.
Vanish(allowed) ==
  LET v == (AllGids(h) \ AllGids(h')) \ gone IN
  Assert(v \subseteq allowed, <<"lost", v \ allowed>>) /\ Drop(v)

Init == h = InitH /\ must = {} /\ gone = {} /\ twice = {} /\ n = 0 /\ ops = 0

DoStart(s) == \E c \in Cfgs :
  /\ ~Live(s)
  \* a session id that left files behind is reused by the same kind of session
  /\ h.s[s].file => c.save
  /\ h.s[s].local => ~c.save
  /\ LET R == {i \in Reapable(h) : i # s} IN
     \E o \in Perms(R) :
       /\ h' = Start(h, s, c, o)
       \* a session that does not save discards what was left, as configured
       /\ Vanish(UNION {IF ~c.save \/ h.s[i].local
                        THEN Gids(h.s[i].lines) ELSE {} : i \in R})
  /\ UNCHANGED n

DoKill(s) == Live(s) /\ h' = KillSession(h, s) /\ Keep /\ UNCHANGED n

DoExit(s) ==
  /\ Live(s)
  /\ LET k == KillSession(h, s)
         R == Reapable(k) IN
     \E o \in Perms(R) :
       /\ h' = Exit(h, s, o)
       /\ Vanish(UNION {IF ~h.s[s].save \/ k.s[i].local THEN Gids(h.s[i].lines) ELSE {} : i \in R})
  /\ UNCHANGED n

\* The collecting session is killed between appending the lines of a dead
\* session and deleting its files.
DoExitPart(s, rem) ==
  /\ Live(s) /\ h.s[s].save
  /\ LET k == KillSession(h, s) IN
     \E i \in Reapable(k) : ~k.s[i].local /\ h' = ReapPart(k, i, rem)
                            /\ twice' = twice \cup Gids(k.s[i].lines)
  /\ UNCHANGED <<must, gone, n>>

DoAdd(s, v) ==
  /\ Live(s) /\ n < MaxAdds
  /\ LET g == n + 1
         x == Add(h, s, v, FALSE, ToString(g), g)
         dup == h.s[s].dupe = "ignore" /\ SeenText(h, s, v) # {}
         er  == IF h.s[s].dupe = "erase_prev" THEN SeenText(h, s, v) ELSE {}
     IN /\ h' = x.h
        /\ must' = IF dup THEN must ELSE (must \ er) \cup {g}
        /\ gone' = gone \cup (er \ {0})
        /\ n' = IF dup THEN n ELSE n + 1
        /\ UNCHANGED twice

DoRemove(s, v) ==
  /\ Live(s) /\ SeenText(h, s, v) # {}
  /\ LET x == RemoveText(h, s, v) IN h' = x.h
  /\ Drop(SeenText(h, s, v))
  /\ UNCHANGED n

\* Only a removal that reports success removed anything.
DoRemoveIndex(s, i) ==
  /\ Live(s) /\ i <= Len(h.s[s].idx)
  /\ LET x == RemoveIndex(h, s, i)
         e == h.s[s].idx[i] IN
     /\ x.r /\ h' = x.h
     /\ Drop({IF e.b = 0 THEN h.m.recs[e.p].g ELSE h.s[s].lines[e.p].g})
  /\ UNCHANGED n

\* Clearing drops the shared history and this session's own lines; the lines
\* of other running sessions stay.
DoClear(s) ==
  /\ Live(s) /\ SeenBy(h, s) # {}
  /\ h' = Clear(h, s)
  /\ Vanish((IF HasMaster(h, s) THEN Gids(h.m.recs) ELSE {}) \cup Gids(h.s[s].lines))
  /\ UNCHANGED n

\* What a limit or uniqueness drops, in terms of live lines only.
Dropped(hh, s, uniq, lim) ==
  LET l == MasterView(hh, s)
      dup == IF uniq THEN {i \in 1..Len(l) : \E j \in (i+1)..Len(l) : l[j].v = l[i].v} ELSE {}
      rest == {i \in 1..Len(l) : i \notin dup}
      old == {i \in rest : lim > 0 /\ Cardinality({j \in rest : j >= i}) > lim}
  IN {l[i].g : i \in dup \cup old}
     \* an entry collected twice (see DoExitPart) is dropped when all copies are
     \ {l[i].g : i \in rest \ old}

DoCompact(s, uniq, lim) ==
  /\ Live(s) /\ h.s[s].save /\ h.m.ctag # 0
  /\ h' = Load(Compact(h, s, TRUE, uniq, lim).h, s, FALSE)
  /\ Drop(Dropped(h, s, uniq, IF lim < 0 THEN h.s[s].limit ELSE lim))
  /\ UNCHANGED n

\* Loading drops the oldest lines beyond the configured limit.
DoLoad(s) ==
  /\ Live(s)
  /\ h' = Load(h, s, TRUE)
  /\ LET seen == MasterView(h, s)
         k == Len(seen) - h.s[s].limit
     IN Drop(IF h.s[s].save /\ h.s[s].limit > 0 /\ k > 0
             THEN {seen[i].g : i \in 1..k} \ {seen[i].g : i \in (k+1)..Len(seen)} ELSE {})
  /\ UNCHANGED n

Next ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ \E s \in Ids :
       \/ DoStart(s) \/ DoKill(s) \/ DoExit(s)
       \/ \E r \in BOOLEAN : DoExitPart(s, r)
       \/ \E v \in Texts : DoAdd(s, v) \/ DoRemove(s, v)
       \/ \E i \in 1..3 : DoRemoveIndex(s, i)
       \/ DoClear(s) \/ DoLoad(s)
       \/ \E u \in BOOLEAN, l \in Limits : DoCompact(s, u, l)

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* C01: what must be recallable is in the master or in some session's file.
NoLoss == \A g \in must : g \in AllGids(h)

\* C01: the adding session, and any session started after it ended, sees it.
SeesOwn == \A s \in Ids : Live(s) =>
  \A g \in must : (g \in Gids(h.s[s].lines) /\ HasSession(h, s)) => g \in SeenBy(h, s)
SeesShared == \A s \in Ids : Live(s) /\ HasMaster(h, s) =>
  \A g \in must : g \in Gids(h.m.recs) => g \in SeenBy(h, s)

\* C02: nothing vanishes that nobody meant to drop, and a dropped entry is
\* still present in a file only when its removal is recorded (and so will be
\* applied), or a session was killed while collecting (collected twice).
Pending(g) == \E i \in Ids :
   h.s[i].rem.has /\ h.s[i].rem.ctag = h.m.ctag
   /\ \E p \in ToSet(h.s[i].rem.offs) : p <= Len(h.m.recs) /\ h.m.recs[p].g = g
RemovedStaysRemoved == \A g \in gone : (g \in Gids(h.m.recs) => Pending(g) \/ g \in twice)
  
\* Time stamps stay with their line (the stamp of entry g is g itself).
StampsRight == \A s \in Ids : Live(s) =>
  \A x \in ToSet(MasterView(h, s)) \cup ToSet(SessionView(h, s)) : x.ts \in {"", ToString(x.g)}
=============================================================================
