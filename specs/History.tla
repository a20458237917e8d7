------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* The saved history of clink (clink/lib/src/history_db.cpp).              *)
(*                                                                         *)
(* A profile directory holds one master file and, per non-shared session,  *)
(* a session file and a file of removals that could not be applied to the  *)
(* master yet.  A record is a history line or a time stamp for the line    *)
(* that follows it.  A record's position in its file never changes until   *)
(* the file is rewritten, so a position stands for the byte offset that    *)
(* the implementation stores, and the concurrency tag ("ctag") of the      *)
(* master says which rewriting of the master positions refer to.           *)
(*                                                                         *)
(* Every operation is a function from state to state, one per critical     *)
(* section of the implementation; MCHistory explores their interleavings   *)
(* and HistoryTrace replays recorded executions of the real code on them.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT Ids            \* session ids (process ids, so they are reused)

NoRem == [has |-> FALSE, ctag |-> 0, offs |-> <<>>]

\* Files and in-memory state of one session id.
NoSess == [st |-> "none", shared |-> FALSE, save |-> TRUE, dupe |-> "add",
           ts |-> FALSE, igns |-> TRUE, limit |-> 0, thr |-> 200,
           file |-> FALSE, lines |-> <<>>, rem |-> NoRem, remh |-> FALSE,
           mctag |-> 0, idx |-> <<>>, mlen |-> 0, mdel |-> 0,
           local |-> FALSE]

InitH == [m |-> [ctag |-> 0, recs |-> <<>>], next |-> 1,
          s |-> [i \in Ids |-> NoSess]]

Line(v, g) == [k |-> "L", v |-> v, d |-> FALSE, g |-> g]
Stamp(t)   == [k |-> "T", v |-> t, d |-> FALSE, g |-> 0]

---------------------------------------------------------------------------
(* Reading a file: the live lines with their positions and time stamps.    *)
(* A stamp belongs to the next line only, whether that line is live or     *)
(* not.  `rm` holds the positions of deferred removals.                    *)
Read(recs, rm) ==
  FoldLeft(LAMBDA a, i : LET r == recs[i] IN
    IF r.k = "T" THEN [a EXCEPT !.ts = r.v, !.tp = i]
    ELSE IF r.d \/ i \in rm THEN [a EXCEPT !.ts = "", !.tp = 0, !.del = @ + 1]
    ELSE [a EXCEPT !.out = Append(@, [p |-> i, v |-> r.v, ts |-> a.ts, tp |-> a.tp, g |-> r.g]),
                   !.ts = "", !.tp = 0],
    [out |-> <<>>, ts |-> "", tp |-> 0, del |-> 0],
    [i \in 1..Len(recs) |-> i])

\* Deferred removals that a session sees: those recorded for this master.
RemSet(h, s) ==
  LET r == h.s[s].rem IN
  IF h.s[s].remh /\ r.has /\ r.ctag = h.m.ctag THEN ToSet(r.offs) ELSE {}

HasMaster(h, s)  == h.s[s].save
HasSession(h, s) == ~(h.s[s].save /\ h.s[s].shared)

MasterView(h, s)  == IF HasMaster(h, s) THEN Read(h.m.recs, RemSet(h, s)).out ELSE <<>>
SessionView(h, s) == IF HasSession(h, s) THEN Read(h.s[s].lines, {}).out ELSE <<>>

\* What session s recalls.
View(h, s) ==
  LET mv == MasterView(h, s)
      sv == SessionView(h, s)
  IN [i \in 1..Len(mv) |-> [v |-> mv[i].v, ts |-> mv[i].ts, b |-> 0]]
     \o [i \in 1..Len(sv) |-> [v |-> sv[i].v, ts |-> sv[i].ts, b |-> 1]]

---------------------------------------------------------------------------
(* Tombstones.                                                             *)
Kill1(recs, p)  == IF p \in 1..Len(recs) /\ recs[p].k = "L"
                   THEN [recs EXCEPT ![p].d = TRUE] ELSE recs
KillAll(recs, ps) == [i \in 1..Len(recs) |->
                        IF recs[i].k = "L" /\ i \in ps THEN [recs[i] EXCEPT !.d = TRUE]
                        ELSE recs[i]]

\* Remove position p of the master on behalf of s: deferred to s's removals
\* file when it has one (restarted if it was made for an earlier rewriting).
RemoveMaster(h, s, ps) ==   \* ps: sequence of positions
  IF Len(ps) = 0 THEN h
  ELSE IF h.s[s].remh
  THEN LET r == h.s[s].rem IN
       [h EXCEPT !.s[s].rem =
          IF r.has /\ r.ctag = h.m.ctag
          THEN [has |-> TRUE, ctag |-> h.m.ctag, offs |-> r.offs \o ps]
          ELSE [has |-> TRUE, ctag |-> h.m.ctag, offs |-> ps]]
  ELSE [h EXCEPT !.m.recs = KillAll(@, ToSet(ps))]

Positions(view, v) ==
  LET sel == SelectSeq(view, LAMBDA x : x.v = v) IN [i \in 1..Len(sel) |-> sel[i].p]

\* Remove every line with text v that s sees.
RemoveText(h, s, v) ==
  LET mp == Positions(MasterView(h, s), v)
      sp == Positions(SessionView(h, s), v)
      h1 == RemoveMaster(h, s, mp)
  IN [h |-> [h1 EXCEPT !.s[s].lines = KillAll(@, ToSet(sp))],
      r |-> Len(mp) + Len(sp)]

\* Remove the n-th line (from 1) of the list that s loaded last.
RemoveIndex(h, s, n) ==
  LET S == h.s[s] IN
  IF n > Len(S.idx) THEN [h |-> h, r |-> TRUE]      \* in memory only
  ELSE
  LET e == S.idx[n] IN
  IF e.b = 0
  THEN IF S.mctag # h.m.ctag THEN [h |-> h, r |-> FALSE]
       ELSE LET h1 == RemoveMaster(h, s, <<e.p>>) IN
            [h |-> [h1 EXCEPT !.s[s].idx = RemoveAt(@, n), !.s[s].mlen = @ - 1,
                              !.s[s].mdel = @ + 1], r |-> TRUE]
  ELSE [h |-> [h EXCEPT !.s[s].lines = Kill1(@, e.p), !.s[s].idx = RemoveAt(@, n)],
        r |-> TRUE]

---------------------------------------------------------------------------
AppendTo(h, s, recs) ==
  IF HasSession(h, s) THEN [h EXCEPT !.s[s].lines = @ \o recs]
  ELSE [h EXCEPT !.m.recs = @ \o recs]

\* `skip`: the text is empty, or starts with blank space and s ignores such.
Add(h, s, v, skip, t, g) ==
  LET S == h.s[s]
      recs == (IF S.ts THEN <<Stamp(t)>> ELSE <<>>) \o <<Line(v, g)>>
  IN
  IF skip THEN [h |-> h, r |-> FALSE]
  ELSE CASE S.dupe = "ignore" /\ (\/ Positions(MasterView(h, s), v) # <<>>
                                  \/ Positions(SessionView(h, s), v) # <<>>)
              -> [h |-> h, r |-> TRUE]
         [] S.dupe = "erase_prev"
              -> [h |-> AppendTo(RemoveText(h, s, v).h, s, recs), r |-> TRUE]
         [] OTHER -> [h |-> AppendTo(h, s, recs), r |-> TRUE]

---------------------------------------------------------------------------
(* Collecting what ended sessions left.  `order` lists the session ids in  *)
(* the order in which the directory scan meets their files.                *)
Reapable(h) == {i \in Ids : h.s[i].st # "live" /\ (h.s[i].file \/ h.s[i].local)}

ReapOne(h, i, save) ==
  LET S  == h.s[i]
      m1 == h.m.recs \o S.lines
      m2 == IF S.rem.has /\ S.rem.ctag = h.m.ctag THEN KillAll(m1, ToSet(S.rem.offs)) ELSE m1
  IN [h EXCEPT !.s[i] = NoSess,
               !.m.recs = IF save /\ ~S.local THEN m2 ELSE @]

\* The process dies after the session's lines were appended (and, when
\* `rem`, its removals applied) but before its files were deleted.
ReapPart(h, i, rem) ==
  LET S  == h.s[i]
      m1 == h.m.recs \o S.lines
      m2 == IF rem /\ S.rem.has /\ S.rem.ctag = h.m.ctag THEN KillAll(m1, ToSet(S.rem.offs)) ELSE m1
  IN [h EXCEPT !.m.recs = m2]

ReapAll(h, order, save) == FoldLeft(LAMBDA a, i : ReapOne(a, i, save), h, order)

\* A session that has not ended keeps a non-local file; files of a session id
\* whose process is gone remain until reaped.
Start(h, s, cfg, order) ==
  LET old == h.s[s]
      \* An empty or tagless master gets a tag when a session opens it.
      h0  == IF cfg.save /\ h.m.ctag = 0
             THEN [h EXCEPT !.m.ctag = h.next, !.next = @ + 1] ELSE h
      sh  == cfg.save /\ cfg.shared
      rem == cfg.save /\ ~cfg.shared /\ cfg.dupe = "erase_prev"
      S   == [NoSess EXCEPT
                !.st = "live", !.shared = cfg.shared, !.save = cfg.save,
                !.dupe = cfg.dupe, !.ts = cfg.ts, !.igns = cfg.igns,
                !.limit = cfg.limit, !.thr = cfg.thr,
                !.file = old.file \/ (cfg.save /\ ~cfg.shared),
                !.local = old.local \/ ~cfg.save,
                !.lines = old.lines,
                !.remh = rem,
                !.rem = IF ~rem THEN old.rem
                        ELSE IF old.rem.has /\ old.rem.ctag = h0.m.ctag THEN old.rem
                        ELSE [has |-> TRUE, ctag |-> h0.m.ctag, offs |-> <<>>],
                !.mctag = IF cfg.save THEN h0.m.ctag ELSE 0]
      h1  == [h0 EXCEPT !.s[s] = S]
  IN IF sh THEN h1 ELSE ReapAll(h1, order, cfg.save)

KillSession(h, s) == [h EXCEPT !.s[s].st = "dead", !.s[s].remh = FALSE]
Exit(h, s, order) == ReapAll(KillSession(h, s), order, h.s[s].save)

---------------------------------------------------------------------------
Clear(h, s) ==
  LET h1 == IF HasMaster(h, s)
            THEN [h EXCEPT !.m = [ctag |-> h.next, recs |-> <<>>], !.next = @ + 1,
                           !.s[s].mctag = h.next,
                           !.s[s].rem = IF h.s[s].remh
                                        THEN [has |-> TRUE, ctag |-> h.next, offs |-> <<>>] ELSE @]
            ELSE h
      h2 == IF HasSession(h, s) THEN [h1 EXCEPT !.s[s].lines = <<>>] ELSE h1
  IN [h2 EXCEPT !.s[s].idx = <<>>, !.s[s].mlen = 0, !.s[s].mdel = 0]

---------------------------------------------------------------------------
(* Rewriting the master: keep live lines, with `uniq` only the last of     *)
(* each text, then only the last `limit` of them (0: all).  Positions that *)
(* removals files of any session recorded are translated.                  *)
(* Lines whose removal the session has recorded (`rm`) count for neither.  *)
KeptLines(recs, uniq, limit, rm) ==
  LET live == Read(recs, {}).out
      cnt(x) == x.p \notin rm
      lst  == IF uniq
              THEN LET ps == {i \in 1..Len(live) : cnt(live[i]) =>
                                ~\E j \in (i+1)..Len(live) : cnt(live[j]) /\ live[j].v = live[i].v}
                   IN SetToSortSeq(ps, LAMBDA a, b : a < b)
              ELSE [i \in 1..Len(live) |-> i]
      kept == [i \in 1..Len(lst) |-> live[lst[i]]]
      n    == Len(kept)
      c    == {i \in 1..n : cnt(kept[i])}
      st   == IF limit > 0 /\ limit <= Cardinality(c)
              THEN CHOOSE i \in c : Cardinality({j \in c : j >= i}) = limit ELSE 1
  IN SubSeq(kept, st, n)

Rewrite(kept) ==
  FoldLeft(LAMBDA a, x :
             LET r1 == IF x.ts = "" THEN a.recs ELSE Append(a.recs, Stamp(x.ts))
                 r2 == Append(r1, Line(x.v, x.g))
             IN [recs |-> r2, map |-> a.map \cup {<<x.p, Len(r2)>>}],
           [recs |-> <<>>, map |-> {}], kept)

RewriteMaster(h, s, uniq, limit) ==
  LET w == Rewrite(KeptLines(h.m.recs, uniq, limit, RemSet(h, s)))
      tr(offs) ==
        LET sel == SelectSeq(offs, LAMBDA p : \E x \in w.map : x[1] = p)
        IN [i \in 1..Len(sel) |-> (CHOOSE x \in w.map : x[1] = sel[i])[2]]
  IN [h EXCEPT
        !.m = [ctag |-> h.next, recs |-> w.recs], !.next = @ + 1,
        !.s = [i \in Ids |->
                 LET S == h.s[i]
                     S1 == IF S.rem.has /\ S.rem.ctag = h.m.ctag
                           THEN [S EXCEPT !.rem = [has |-> TRUE, ctag |-> h.next, offs |-> tr(S.rem.offs)]]
                           ELSE S
                 IN IF i = s THEN [S1 EXCEPT !.mctag = h.next] ELSE S1]]

MaxLines == 999999
EffLimit(h, s) == IF h.s[s].limit = 0 THEN MaxLines ELSE h.s[s].limit

\* Mark the oldest loaded lines as deleted while more than `limit` are live.
RECURSIVE Trim(_, _, _)
Trim(h, s, limit) ==
  IF h.s[s].mlen <= limit THEN h
  ELSE LET x == RemoveIndex(h, s, 1) IN IF x.r THEN Trim(x.h, s, limit) ELSE h

Compact(h, s, force, uniq, lim) ==      \* lim = -1: the configured limit
  LET limit == IF lim < 0 THEN EffLimit(h, s) ELSE IF lim > MaxLines THEN MaxLines ELSE lim
      h1    == IF limit > 0 /\ ~force THEN Trim(h, s, limit) ELSE h
      thr   == IF limit = 0 THEN 5000 ELSE IF limit > h.s[s].thr THEN limit ELSE h.s[s].thr
  IN IF ~(force \/ h1.s[s].mdel > thr) THEN [h |-> h1, r |-> FALSE]
     ELSE [h |-> RewriteMaster(h1, s, uniq, limit), r |-> TRUE]

LoadOnce(h, s) ==
  LET mv == Read(h.m.recs, RemSet(h, s))
      sv == SessionView(h, s)
      mi == IF HasMaster(h, s) THEN [i \in 1..Len(mv.out) |-> [b |-> 0, p |-> mv.out[i].p]] ELSE <<>>
      si == [i \in 1..Len(sv) |-> [b |-> 1, p |-> sv[i].p]]
  IN [h EXCEPT !.s[s].idx = mi \o si, !.s[s].mlen = Len(mi),
               !.s[s].mdel = IF HasMaster(h, s) THEN mv.del ELSE 0,
               !.s[s].mctag = IF HasMaster(h, s) THEN h.m.ctag ELSE @]

\* Load the history for recall; at the same time the master is trimmed to the
\* configured limit and compacted when it has many dead lines.
Load(h, s, clean) ==
  LET h1 == LoadOnce(h, s) IN
  IF clean /\ h.s[s].save
  THEN LoadOnce(Compact(h1, s, FALSE, FALSE, -1).h, s)
  ELSE h1
=============================================================================
