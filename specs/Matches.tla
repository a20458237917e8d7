------------------------------ MODULE Matches ------------------------------
(* Completion matches: what the generators' candidates become, which of     *)
(* them a typed word selects, and in which order they are offered.          *)
(* Texts are sequences of one-character strings (Chars).  A candidate is    *)
(* [m |-> text, t |-> type, d |-> display, e |-> description, n |-> ordinal]*)
(* Options o: wild, sub, sort, rlh, hid, sys, mode, fuzzy, tr.              *)
EXTENDS Chars
TNone == 1 TWord == 2 TArg == 3 TCmd == 4 TAlias == 5 TFile == 6 TDir == 7
Base(t) == t % 8
Hidden(t) == (t \div 64) % 2 = 1
System(t) == (t \div 256) % 2 = 1
FromHist(t) == (t \div 32768) % 2 = 1
Pathish(t) == Base(t) \in {TFile, TDir}
WithBase(t, b) == t - Base(t) + b
Seps == {"/", "\\"}
\* Letters with accents used here (fuzzy accents): capital, small, plain.
Accents == {<<"uc9", "ue9", "e">>, <<"uc8", "ue8", "e">>, <<"uc4", "ue4", "a">>}
LowC(c) == IF \E a \in Accents : a[1] = c THEN (CHOOSE a \in Accents : a[1] = c)[2] ELSE Low(c)
Plain(c) == IF \E a \in Accents : a[2] = c THEN (CHOOSE a \in Accents : a[2] = c)[3]
            ELSE IF c = "uc9" \/ c = "uc8" THEN "E" ELSE IF c = "uc4" THEN "A" ELSE c
\* Characters are compared after folding.  mode: 0 exact, 1 caseless, 2 caseless and - is _
Fold(o, c) == LET c1 == IF o.mode > 0 THEN LowC(c) ELSE c
                  c2 == IF o.mode > 1 /\ c1 = "-" THEN "_" ELSE c1
                  c3 == IF c2 = "\\" THEN "/" ELSE c2
              IN IF o.fuzzy THEN Plain(c3) ELSE c3
\* Folded, and a run of separators counts as one.
Norm(o, t) == LET RECURSIVE go(_)
                  go(i) == IF i > Len(t) THEN <<>>
                           ELSE IF t[i] \in Seps /\ i > 1 /\ t[i-1] \in Seps THEN go(i + 1)
                           ELSE <<Fold(o, t[i])>> \o go(i + 1)
              IN go(1)
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE DropSeps(_)
DropSeps(t) == IF t # <<>> /\ t[Len(t)] \in Seps THEN DropSeps(SubSeq(t, 1, Len(t) - 1)) ELSE t
AfterLastSep(t) == SubSeq(t, FindBack(t, Len(t), LAMBDA c : c \in Seps) + 1, Len(t))
UptoLastSep(t) == SubSeq(t, 1, FindBack(t, Len(t), LAMBDA c : c \in Seps))
StartsWithDot(t) == t # <<>> /\ t[1] = "."
UnixHidden(t) == StartsWithDot(AfterLastSep(DropSeps(t)))

(* Which candidates may be shown at all. *)
TypeShown(o, t) == IF System(t) THEN o.sys ELSE IF Hidden(t) THEN o.rlh /\ o.hid ELSE TRUE
Shown(o, needle, c) == (o.rlh \/ StartsWithDot(AfterLastSep(needle)) \/ ~UnixHidden(c.m)) /\ TypeShown(o, c.t)

(* Wildcards: * is any text (no separators in it for files and directories, *)
(* except at the end), ? any one character but a separator, or none at the  *)
(* end; wildcards right after a * add nothing.                              *)
Wild(c) == c \in {"*", "?"}
Glob(o, pat, txt, everything) ==
  LET np == Len(pat) nt == Len(txt)
      RECURSIVE skip(_)
      skip(i) == IF i <= np /\ Wild(pat[i]) THEN skip(i + 1) ELSE i
      RECURSIVE sepsP(_)
      sepsP(i) == IF i <= np /\ pat[i] \in Seps THEN sepsP(i + 1) ELSE i
      RECURSIVE sepsT(_)
      sepsT(i) == IF i <= nt /\ txt[i] \in Seps THEN sepsT(i + 1) ELSE i
      RECURSIVE g(_, _)
      RECURSIVE star(_, _)
      g(i, j) ==
        IF i > np THEN j > nt
        ELSE IF pat[i] = "*" THEN
               \E k \in {skip(i)} : IF k > np THEN TRUE ELSE star(k, j)
        ELSE IF pat[i] = "?" THEN IF j > nt THEN g(i + 1, j) ELSE txt[j] \notin Seps /\ g(i + 1, j + 1)
        ELSE /\ j <= nt
             /\ Fold(o, pat[i]) = Fold(o, txt[j])
             /\ IF pat[i] \in Seps THEN g(sepsP(i), sepsT(j)) ELSE g(i + 1, j + 1)
      star(k, j) == \* the rest of the pattern, from the literal at k, matches at j or later
        \/ g(k, j)
        \/ j <= nt /\ (everything \/ txt[j] \notin Seps) /\ star(k, j + 1)
  IN g(1, 1)
MatchesPattern(o, pat, c) == Glob(o, pat, DropSeps(c.m), ~Pathish(c.t))

SubstringAllowed(o, pat) ==
  /\ o.sub /\ pat # <<>> /\ pat[1] \notin {"~", "*"}
  /\ o.wild \/ \A i \in 1..Len(pat) : pat[i] # "?" /\ ~(pat[i] = "*" /\ i < Len(pat) /\ pat[i+1] # "*")
SubPattern(pat) == UptoLastSep(pat) \o <<"*">> \o AfterLastSep(pat)

(* The ordinals of the candidates that a typed word selects. *)
ByPattern(o, shownby, pat, cs) == {c.n : c \in {x \in cs : Shown(o, shownby, x) /\ MatchesPattern(o, pat, x)}}
Selected(o, needle, cs) ==
  LET first == IF o.wild THEN ByPattern(o, needle \o <<"*">>, needle \o <<"*">>, cs)
               ELSE LET nn == Norm(o, needle) IN {c.n : c \in {x \in cs : Shown(o, needle, x) /\ IsPre(nn, Norm(o, x.m))}}
  IN IF first # {} \/ ~SubstringAllowed(o, needle) THEN first
     ELSE LET p == SubPattern(needle) \o <<"*">> IN ByPattern(o, p, p, cs)
\* ... and that a wildcard word keeps (nothing appended to it)
Restricted(o, needle, cs) ==
  LET first == ByPattern(o, needle, needle, cs)
  IN IF first # {} \/ ~SubstringAllowed(o, needle) THEN first
     ELSE LET p == SubPattern(needle) IN ByPattern(o, p, p, cs)
NeedleLeft(needle) == SubSeq(needle, 1, Find(needle, 1, Wild) - 1)
\* ... or that iterating the visible ones with a pattern gives
Iterated(o, pat, cs) ==
  LET first == {c.n : c \in {x \in cs : MatchesPattern(o, pat, x)}}
  IN IF first # {} \/ ~SubstringAllowed(o, pat) THEN first
     ELSE LET p == SubPattern(pat) IN {c.n : c \in {x \in cs : MatchesPattern(o, p, x)}}

(* What a generator's candidates become. *)
SystemSep == "\\"
FirstSep(w) == LET i == Find(w, 1, LAMBDA c : c \in Seps) IN IF i > Len(w) THEN "" ELSE w[i]
\* the separator translated to ("" : not translated); auto goes by the word
TransSep(o, sep) == CASE o.tr = "off" -> "" [] o.tr = "system" -> SystemSep [] o.tr = "slash" -> "/"
                      [] o.tr = "backslash" -> SystemSep [] OTHER -> IF sep = "" THEN SystemSep ELSE sep
Translate(t, s) == IF s = "" THEN t ELSE <<>> \o [i \in 1..Len(t) |-> IF t[i] \in Seps THEN s ELSE t[i]]
EndsSep(t) == t # <<>> /\ t[Len(t)] \in Seps
Dup(c, k) == c.m = k.m /\ (c.t = k.t \/ FromHist(c.t) \/ FromHist(k.t))
\* One candidate, before the duplicates are dropped.
Made(o, sep, files, it) ==
  LET t1 == IF EndsSep(it.m) /\ Base(it.t) = TNone /\ ~FromHist(it.t) THEN WithBase(it.t, TDir) ELSE it.t
      m1 == IF Base(t1) = TDir /\ ~EndsSep(it.m) THEN Append(it.m, SystemSep) ELSE it.m
      tr == Base(t1) \in {TDir, TFile} \/ (Base(t1) = TNone /\ files = 1 /\ FromHist(t1))
  IN [m |-> IF tr THEN Translate(m1, TransSep(o, sep)) ELSE m1, t |-> t1, d |-> it.d, e |-> it.e]
\* <<accepted candidates, accepted flags>>
RECURSIVE AddAll(_, _, _, _, _)
AddAll(o, sep, files, items, acc) ==
  IF items = <<>> THEN acc
  ELSE LET c == Made(o, sep, files, items[1])
           bad == items[1].m = <<>> \/ \E k \in 1..Len(acc[1]) : Dup(c, acc[1][k])
       IN AddAll(o, sep, files, Tail(items),
                 IF bad THEN <<acc[1], Append(acc[2], "0")>>
                 ELSE <<Append(acc[1], [m |-> c.m, t |-> c.t, d |-> c.d, e |-> c.e, n |-> Len(acc[1])]), Append(acc[2], "1")>>)
\* Untyped candidates are looked up on disk; those that are directories get a separator.
DiskDirs == {<<"s", "u", "b">>, <<"s", "u", "b", "/", "i", "n">>, <<"d", "d">>, <<".", ".">>}
DiskFiles == {<<"f", "f">>, <<"s", "u", "b", "/", "g", "g">>}
Disk(t) == Norm([mode |-> 1, fuzzy |-> FALSE], t)
PreferredSep(o, sep) == IF o.tr \in {"off", "system"} THEN SystemSep ELSE TransSep(o, sep)
RECURSIVE Resolve(_, _, _, _)
Resolve(o, sep, cs, k) ==      \* from the last to the first
  IF k = 0 THEN cs
  ELSE IF Base(cs[k].t) # TNone \/ FromHist(cs[k].t) THEN Resolve(o, sep, cs, k - 1)
  ELSE LET isdir == Disk(cs[k].m) \in DiskDirs
           c == [cs[k] EXCEPT !.t = IF isdir THEN TDir ELSE TFile, !.m = IF isdir THEN Append(@, PreferredSep(o, sep)) ELSE @]
       IN IF \E x \in (1..Len(cs)) \ {k} : Dup(c, cs[x])
          THEN Resolve(o, sep, SubSeq(cs, 1, k - 1) \o SubSeq(cs, k + 1, Len(cs)), k - 1)
          ELSE Resolve(o, sep, [cs EXCEPT ![k] = c], k - 1)
Resolved(o, sep, files, dep, cs) ==
  IF (IF dep THEN files = 1 ELSE files # 0) THEN Resolve(o, sep, cs, Len(cs)) ELSE cs

(* Order. *)
IsDirC(c) == Base(c.t) = TDir \/ (Base(c.t) = TNone /\ ~FromHist(c.t) /\ EndsSep(c.m))
RECURSIVE Minuses(_)
Minuses(t) == IF t # <<>> /\ t[1] = "-" THEN 1 + Minuses(Tail(t)) ELSE 0
NumEnd(t, i) == Find(t, i, LAMBDA c : c \notin Digits) \* first position after the digits at i
\* -1, 0, 1: letters without case, runs of digits as numbers (no leading zeros here)
RECURSIVE Cmp(_, _, _)
Cmp(a, b, cased) ==
  IF a = <<>> THEN IF b = <<>> THEN 0 ELSE -1
  ELSE IF b = <<>> THEN 1
  ELSE IF a[1] \in Digits /\ b[1] \in Digits
       THEN LET ea == NumEnd(a, 1) eb == NumEnd(b, 1)
                va == Atoi(SubSeq(a, 1, ea - 1)) vb == Atoi(SubSeq(b, 1, eb - 1))
            IN IF va # vb THEN IF va < vb THEN -1 ELSE 1 ELSE Cmp(SubSeq(a, ea, Len(a)), SubSeq(b, eb, Len(b)), cased)
  ELSE LET x == IF cased THEN a[1] ELSE Low(a[1]) y == IF cased THEN b[1] ELSE Low(b[1])
       IN IF x = y THEN Cmp(Tail(a), Tail(b), cased)
          ELSE IF Low(a[1]) = Low(b[1]) THEN IF a[1] \in UpperSet THEN 1 ELSE -1 \* small before capital
          ELSE IF Code(Low(a[1])) < Code(Low(b[1])) THEN -1 ELSE 1
\* Only for these does this specification say how they are collated.
Collated(t) == \A i \in 1..Len(t) : t[i] \in Digits \/ Low(t[i]) \in {LowerSeq[x] : x \in 1..26} \/ (t[i] = "-" /\ i <= Minuses(t))
\* a must come before b
Before(o, a, b) ==
  LET da == IsDirC(a) db == IsDirC(b)
      ma == IF da THEN DropSeps(a.m) ELSE a.m
      mb == IF db THEN DropSeps(b.m) ELSE b.m
      dash == (ma # <<>> /\ ma[1] = "-") \/ (mb # <<>> /\ mb[1] = "-")
  IN IF o.sort # "with" /\ da # db THEN (IF o.sort = "before" THEN da ELSE db)
     ELSE IF dash /\ Minuses(ma) # Minuses(mb) THEN Minuses(ma) < Minuses(mb)
     ELSE IF ~Collated(ma) \/ ~Collated(mb) THEN FALSE
     ELSE LET c == Cmp(ma, mb, FALSE) IN IF c # 0 THEN c < 0 ELSE Cmp(ma, mb, TRUE) < 0
Ordered(o, v) == \A i \in 1..Len(v) - 1 : ~Before(o, v[i + 1], v[i])

(* The common beginning: the longest beginning of the first that, folded,   *)
(* begins them all.                                                         *)
Common(o, v) ==
  IF v = <<>> THEN <<>>
  ELSE LET ns == {Norm(o, v[i].m) : i \in 1..Len(v)}
           ok(k) == LET p == Norm(o, SubSeq(v[1].m, 1, k)) IN \A x \in ns : IsPre(p, x)
       IN SubSeq(v[1].m, 1, CHOOSE k \in 0..Len(v[1].m) : ok(k) /\ \A q \in (k + 1)..Len(v[1].m) : ~ok(q))
=============================================================================
