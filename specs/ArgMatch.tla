----------------------------- MODULE ArgMatch -----------------------------
(***************************************************************************)
(* Argument matchers (clink/lua/scripts/arguments.lua): how the functions  *)
(* scripts call build them, and what they complete and how they color each *)
(* word of a line.  Words are sequences of one-character strings.          *)
(*                                                                         *)
(* A matcher has positions; each has a list of words, some of them linked  *)
(* to another matcher which takes over after the word, and perhaps files.  *)
(* Flags are a list of their own and may appear between the positions.     *)
(***************************************************************************)
EXTENDS Chars
Files == <<"*">>              \* An entry which stands for file names.
NoList == [items |-> <<>>, links |-> <<>>, hidden |-> {}]
NewMatcher == [args |-> <<>>, has |-> FALSE, flags |-> NoList, pre |-> {}, loop |-> 0, nofiles |-> FALSE, any |-> TRUE, end |-> <<>>, chain |-> FALSE, next |-> 1]
NoMatchers == [obj |-> <<>>, name |-> <<>>, cmd |-> <<>>]
\* obj: matchers; name: the script's names for them; cmd: commands' matchers.
Lookup(pairs, k) == LET hit == {n \in 1..Len(pairs) : pairs[n][1] = k} IN IF hit = {} THEN 0 ELSE pairs[CHOOSE n \in hit : TRUE][2]
Store(pairs, k, v) == IF Lookup(pairs, k) = 0 THEN Append(pairs, <<k, v>>) ELSE <<>> \o [n \in 1..Len(pairs) |-> IF pairs[n][1] = k THEN <<k, v>> ELSE pairs[n]]
Linked(l, w) == Lookup(l.links, w)
Has(l, w) == \E n \in 1..Len(l.items) : l.items[n] = w
---------------------------------------------------------------------------
(* Building.                                                               *)
New(S, id, cmd) ==
  LET o == IF cmd = <<>> THEN 0 ELSE Lookup(S.cmd, cmd) IN
  IF o # 0 THEN [S EXCEPT !.name = Store(@, id, o), !.obj[o].next = 1]
  ELSE LET n == Len(S.obj) + 1 IN
       [obj |-> Append(S.obj, NewMatcher), name |-> Store(S.name, id, n), cmd |-> IF cmd = <<>> THEN S.cmd ELSE Store(S.cmd, cmd, n)]
\* Where a list is: position p of a matcher, its flags when p = 0.
ListAt(S, o, p) == IF p = 0 THEN S.obj[o].flags ELSE S.obj[o].args[p]
SetList(S, o, p, l) == IF p = 0 THEN [S EXCEPT !.obj[o].flags = l] ELSE [S EXCEPT !.obj[o].args[p] = l]
\* An entry is [w, to]: the word, and the matcher it is linked to or 0.
RECURSIVE AddAll(_, _, _, _), Merge(_, _, _)
AddEntry(S, o, p, e) ==
  LET l  == ListAt(S, o, p)
      l1 == [l EXCEPT !.items = Append(@, e.w)]
      S0 == IF p = 0 /\ e.w # Files /\ e.w # <<>> THEN [S EXCEPT !.obj[o].pre = @ \cup {e.w[1]}] ELSE S
  IN IF e.to = 0 THEN SetList(S0, o, p, l1)
     ELSE IF Linked(l, e.w) = 0 THEN SetList(S0, o, p, [l1 EXCEPT !.links = Append(@, <<e.w, e.to>>)])
     ELSE SetList(Merge(S0, Linked(l, e.w), e.to), o, p, l1)
AddAll(S, o, p, es) == IF es = <<>> THEN S ELSE AddAll(AddEntry(S, o, p, es[1]), o, p, Tail(es))
\* The words of the second matcher's flags and first position join the first's.
Plain(l) == <<>> \o [n \in 1..Len(l.items) |-> [w |-> l.items[n], to |-> 0]]
Merge(S, x, y) ==
  IF x = y THEN S ELSE
  LET S1 == IF S.obj[y].has THEN AddAll([S EXCEPT !.obj[x].has = TRUE], x, 0, Plain(S.obj[y].flags)) ELSE S
  IN IF S1.obj[y].args = <<>> THEN S1 ELSE
     LET S2 == IF S1.obj[x].args = <<>> THEN [S1 EXCEPT !.obj[x].args = <<NoList>>] ELSE S1
         r  == S2.obj[y].args[1]
         RECURSIVE go(_, _)
         go(T, n) == IF n > Len(r.items) THEN T ELSE
           LET w == r.items[n]
               c == Linked(r, w)
               m == Linked(T.obj[x].args[1], w)
           IN go(IF c # 0 /\ m # 0 THEN Merge(T, m, c) ELSE AddEntry(T, x, 1, [w |-> w, to |-> c]), n + 1)
     IN go(S2, 1)
AddArg(S, o, es) ==
  LET p  == S.obj[o].next
      S1 == IF p > Len(S.obj[o].args) THEN [S EXCEPT !.obj[o].args = Append(@, NoList)] ELSE S
      p1 == IF p > Len(S.obj[o].args) THEN Len(S1.obj[o].args) ELSE p
  IN AddAll([S1 EXCEPT !.obj[o].next = p1 + 1], o, p1, es)
AddFlags(S, o, es) == AddAll([S EXCEPT !.obj[o].has = TRUE], o, 0, es)
HideFlags(S, o, ws) == [S EXCEPT !.obj[o].has = TRUE, !.obj[o].flags.hidden = @ \cup ws]
SetEnd(S, o, w) == [S EXCEPT !.obj[o].end = w, !.obj[o].pre = @ \cup (IF w = <<>> THEN {} ELSE {w[1]})]
\* (A matcher which chains is never left for one below it.)
SetChain(S, o) == [S EXCEPT !.obj[o].chain = TRUE, !.obj[o].nofiles = TRUE]
Reset(S, o) == [S EXCEPT !.obj[o] = NewMatcher]
---------------------------------------------------------------------------
(* Reading a line.  A reader's frame: matcher m at position a (of its      *)
(* flags when f), nf: flags are no longer recognized.                      *)
Frame(m, f) == [m |-> m, f |-> f, a |-> 1, nf |-> FALSE]
NArgs(S, r) == IF r.f THEN 1 ELSE Len(S.obj[r.m].args)
Flagged(S, r) == ~r.f /\ S.obj[r.m].has
ArgList(S, r) == IF r.f THEN S.obj[r.m].flags ELSE S.obj[r.m].args[r.a]
NoFiles(S, r) == ~r.f /\ S.obj[r.m].nofiles
Looping(S, r) == ~r.f /\ S.obj[r.m].loop # 0
\* What the word looks like to the matcher.
FlagLike(S, m, w) == w # <<>> /\ w[1] \in S.obj[m].pre
\* st: frames, the current one last.  The matcher is exhausted: back to one
\* which can take the next word.
Top(st) == st[Len(st)]
Below(st) == SubSeq(st, 1, Len(st) - 1)
SetTop(st, r) == Append(Below(st), r)
RECURSIVE Pop(_, _, _)
Pop(S, st, nextFlag) ==  \* [st, ok]
  IF Len(st) = 1 \/ NoFiles(S, Top(st)) THEN [st |-> st, ok |-> FALSE]
  ELSE LET b == Below(st)
           r == Top(b)
           stay == \/ Looping(S, r)
                   \/ nextFlag /\ Flagged(S, r)
                   \/ r.a <= NArgs(S, r)
                   \/ NArgs(S, r) = 0 /\ Flagged(S, r) /\ r.a = 1
       IN IF stay \/ Len(b) = 1 THEN [st |-> b, ok |-> TRUE]
          ELSE [st |-> Pop(S, b, nextFlag).st, ok |-> TRUE]
\* One word; next: the word after it ("none" at the end), last: it ends the
\* command, nextLast: the next does.  Result [st, class, chain].
Word(S, st0, w, last, next, nextLast) ==
  LET r0  == Top(st0)
      m   == r0.m
      o   == S.obj[m]
      fl  == ~r0.nf /\ Flagged(S, r0) /\ FlagLike(S, m, w) /\ (Len(w) > 1 \/ last)
      ends == fl /\ w = o.end
      st1 == IF fl THEN Append(SetTop(st0, IF ends THEN [r0 EXCEPT !.nf = TRUE] ELSE r0), Frame(m, TRUE))
             ELSE IF ~o.any THEN SetTop(st0, [r0 EXCEPT !.nf = TRUE]) ELSE st0
      r1  == Top(st1)
      nextFlag == ~r1.nf /\ FlagLike(S, m, next) /\ (Len(next) > 1 \/ nextLast)
      known == r1.a \in 1..NArgs(S, r1)
      l   == IF known THEN ArgList(S, r1) ELSE NoList
      a1  == r1.a + 1
      st2 == IF a1 <= NArgs(S, r1) \/ fl \/ (nextFlag /\ ~Looping(S, r1)) THEN SetTop(st1, [r1 EXCEPT !.a = a1])
             ELSE IF Looping(S, r1) /\ NArgs(S, r1) > 0
                  THEN SetTop(st1, [r1 EXCEPT !.a = Min2(Max2(S.obj[m].loop, 1), NArgs(S, r1))])
             ELSE IF Looping(S, r1) THEN SetTop(st1, [r1 EXCEPT !.a = 0])
             ELSE LET p == Pop(S, st1, nextFlag) IN IF p.ok THEN p.st ELSE SetTop(st1, [r1 EXCEPT !.a = a1])
      to  == IF known THEN Linked(l, w) ELSE 0
      st3 == IF to # 0 THEN Append(st2, Frame(to, FALSE)) ELSE IF fl THEN Pop(S, st2, nextFlag).st ELSE st2
      class == IF ~known THEN (IF NoFiles(S, r1) THEN "n" ELSE "o")
               ELSE IF to # 0 \/ Has(l, w) \/ ends THEN (IF fl THEN "f" ELSE "a") ELSE "o"
  IN IF ~known /\ ~r1.f /\ o.chain THEN [st |-> st2, class |-> "chain", chain |-> TRUE]
     ELSE [st |-> st3, class |-> class, chain |-> FALSE]
\* What the end word can become: words and whether file names.
Offer(S, st0, w) ==
  LET r0 == Top(st0)
      o  == S.obj[r0.m]
      isFlag == ~r0.nf /\ Flagged(S, r0) /\ FlagLike(S, r0.m, w)
      r  == r0
      list(l) == [words |-> {l.items[n] : n \in {n \in 1..Len(l.items) : l.items[n] # Files /\ l.items[n] \notin l.hidden}}, files |-> Has(l, Files)]
  IN IF isFlag THEN list(o.flags)
     ELSE IF r.a \in 1..NArgs(S, r) THEN list(ArgList(S, r))
     ELSE [words |-> {}, files |-> ~(o.nofiles \/ (o.args = <<>> /\ ~o.has))]
---------------------------------------------------------------------------
(* A line: words between spaces, "&" between commands, ">" in front of a   *)
(* word that is no argument, quotes around a word.                         *)
\* Words as [t: text, o: position of the text, n: its length, redir].
Pieces(t) ==
  LET RECURSIVE go(_)
      go(i) == LET b == Find(t, i, LAMBDA c : c # " ")
                   e == Find(t, b, LAMBDA c : c = " ")
                   w == SubSeq(t, b, e - 1)
                   q == At(w, 1) = "\""
                   z == q /\ Len(w) > 1 /\ w[Len(w)] = "\""
                   rd == At(w, 1) = ">"
               IN IF b > Len(t) THEN <<>>
                  ELSE <<[t |-> IF q THEN SubSeq(w, 2, Len(w) - (IF z THEN 1 ELSE 0)) ELSE IF rd THEN SubSeq(w, 2, Len(w)) ELSE w,
                          o |-> IF q \/ rd THEN b + 1 ELSE b, redir |-> rd, sep |-> w = <<"&">>, end |-> e]>> \o go(e)
  IN go(1)
EndsOpen(t, ps) == ps # <<>> /\ ps[Len(ps)].end = Len(t) + 1  \* The line ends in a word.
Empty(t) == [t |-> <<>>, o |-> Len(t) + 1, redir |-> FALSE, sep |-> FALSE, end |-> Len(t) + 1]
\* The commands of a line, each a sequence of words; the last has the end word.
Commands(t) ==
  LET ps == Pieces(t)
      all == IF EndsOpen(t, ps) THEN ps ELSE Append(ps, Empty(t))
      RECURSIVE go(_, _)
      go(n, cur) == IF n > Len(all) THEN <<cur>> ELSE IF all[n].sep THEN <<cur>> \o go(n + 1, <<>>) ELSE go(n + 1, Append(cur, all[n]))
  IN go(1, <<>>)
\* Words of a command with redirections left out (they count for nothing).
Args(ws) == SelectSeq(ws, LAMBDA w : ~w.redir)
\* Reading words from the n-th on: [st, classes, at: where it stopped (chained command) or 0, k: command the rest is for].
RECURSIVE Read(_, _, _, _, _)
Read(S, ws, n, upto, st) ==
  IF n > upto THEN [st |-> st, classes |-> <<>>, at |-> 0]
  ELSE LET x == Word(S, st, ws[n].t, n = Len(ws), IF n < Len(ws) THEN ws[n + 1].t ELSE <<>>, n + 1 = Len(ws))
       IN IF x.chain THEN [st |-> x.st, classes |-> <<>>, at |-> n]
          ELSE LET y == Read(S, ws, n + 1, upto, x.st)
                   \* (a lone dash at the end may become a flag or be an argument)
                   c == IF n = Len(ws) /\ Len(ws[n].t) = 1 /\ FlagLike(S, Top(st).m, ws[n].t) THEN "?" ELSE x.class
               IN [y EXCEPT !.classes = <<c>> \o @]
\* Classes of a command's words from the n-th (the command word) on; "?": not specified.
RECURSIVE Classes(_, _, _)
Classes(S, ws, n) ==
  IF n > Len(ws) THEN <<>> ELSE
  LET o == Lookup(S.cmd, Lower(ws[n].t)) IN
  IF o = 0 THEN <<"?">> \o [k \in 1..(Len(ws) - n) |-> " "]
  ELSE LET r == Read(S, ws, n + 1, Len(ws), <<Frame(o, FALSE)>>) IN
       <<"?">> \o r.classes \o (IF r.at = 0 THEN <<>> ELSE Classes(S, ws, r.at))
\* What is offered for the last word; "any" when it is a command word.
RECURSIVE Complete(_, _, _)
Complete(S, ws, n) ==
  IF n >= Len(ws) THEN [any |-> TRUE, words |-> {}, files |-> FALSE] ELSE
  LET o == Lookup(S.cmd, Lower(ws[n].t)) IN
  IF o = 0 THEN [any |-> FALSE, words |-> {}, files |-> TRUE]
  ELSE LET r == Read(S, ws, n + 1, Len(ws) - 1, <<Frame(o, FALSE)>>)
           top == Top(r.st)
           w == ws[Len(ws)].t
           f == Offer(S, r.st, w)
       IN IF r.at # 0 THEN Complete(S, ws, r.at)
          ELSE IF ~top.f /\ S.obj[top.m].chain /\ top.a > NArgs(S, top) THEN [any |-> TRUE, words |-> {}, files |-> FALSE]
          ELSE [any |-> FALSE, words |-> f.words, files |-> f.files]
Prefix(w, v) == Len(w) <= Len(v) /\ SubSeq(v, 1, Len(w)) = w
Matches(S, t, files) ==
  LET cs == Commands(t)
      all == cs[Len(cs)]
      end == all[Len(all)]
      ws == IF end.redir THEN all ELSE Args(all)
      c == IF end.redir THEN [any |-> FALSE, words |-> {}, files |-> TRUE] ELSE Complete(S, ws, 1)
  IN [any |-> c.any, set |-> {v \in c.words \cup (IF c.files THEN files ELSE {}) : Prefix(end.t, v)}]
\* The class of each character of the line.
Faces(S, t) ==
  LET cs == Commands(t)
      flat == Flat([k \in 1..Len(cs) |-> LET a0 == Args(cs[k])
                                             a == IF a0 # <<>> /\ a0[Len(a0)].t = <<>> THEN Below(a0) ELSE a0
                                             c == Classes(S, a, 1)
                                         IN [n \in 1..Len(a) |-> [w |-> a[n], c |-> c[n]]]])
      at(i) == LET hit == {n \in 1..Len(flat) : i \in flat[n].w.o..(flat[n].w.o + Len(flat[n].w.t) - 1)} IN
               IF hit = {} THEN " " ELSE flat[CHOOSE n \in hit : TRUE].c
  IN <<>> \o [i \in 1..Len(t) |-> at(i)]
=============================================================================
