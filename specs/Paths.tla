-------------------------------- MODULE Paths --------------------------------
(* What the parts of a path are, and what taking it apart, putting it together,
   cleaning it and walking up from it give.  A path names a place: its root and
   the elements below it; none of these operations changes the place named.  *)
EXTENDS Chars
Seps == {"/", "\\"}
IsSep(c) == c \in Seps
Letters == UpperSet \cup {LowerSeq[i] : i \in 1..26}
SkipSep(p, i) == Find(p, i, LAMBDA c : c \notin Seps)
SkipElem(p, i) == Find(p, i, LAMBDA c : c \in Seps)
From(p, i) == SubSeq(p, i, Len(p))
\* --- The root of a path ---
\* \\?\ , with any further separators: its length, or 0.
LongLen(p) == IF IsSep(At(p, 1)) /\ IsSep(At(p, 2)) /\ At(p, 3) = "?" /\ IsSep(At(p, 4)) THEN SkipSep(p, 4) - 1 ELSE 0
Device(p) == IsSep(At(p, 1)) /\ IsSep(At(p, 2)) /\ At(p, SkipSep(p, 1)) = "." /\ At(p, SkipSep(p, 1) + 1) \in Seps \cup {""}
\* Where the server name of a UNC path begins, or 0.
UncAt(p) ==
  IF ~(IsSep(At(p, 1)) /\ IsSep(At(p, 2))) \/ Device(p) THEN 0
  ELSE LET s == SkipSep(p, 1) IN
       IF s = 3 /\ At(p, 3) = "?" /\ IsSep(At(p, 4))
       THEN LET u == SkipSep(p, 4) IN
            IF Len(p) >= u + 3 /\ Lower(SubSeq(p, u, u + 2)) = <<"u", "n", "c">> /\ IsSep(p[u + 3]) THEN SkipSep(p, u + 3) ELSE 0
       ELSE s
IsUnc(p) == UncAt(p) > 0
DriveLen(p, i) == IF At(p, i) \in Letters /\ At(p, i + 1) = ":" THEN 2 ELSE 0
\* The number of characters of the root: \\server\share, X:, \\?\X:, \\?\ or none.
RootLen(p) == IF IsUnc(p) THEN SkipElem(p, SkipSep(p, SkipElem(p, UncAt(p)))) - 1
              ELSE LongLen(p) + DriveLen(p, LongLen(p) + 1)
Drive(p) == IF DriveLen(p, LongLen(p) + 1) = 2 THEN SubSeq(p, LongLen(p) + 1, LongLen(p) + 2) ELSE <<>>
HasDrive(p) == ~IsUnc(p) /\ Drive(p) # <<>>
Rest(p) == From(p, RootLen(p) + 1)
Elems(p) == Split(Rest(p), Seps)
\* With one kind of separator, one at a time (but two may come first).
RECURSIVE Single(_)
Single(t) == IF t = <<>> THEN <<>> ELSE
             IF IsSep(t[1]) THEN <<"/">> \o Single(From(t, SkipSep(t, 1))) ELSE <<t[1]>> \o Single(Tail(t))
RootText(p) == LET r == SubSeq(p, 1, RootLen(p)) IN
               IF IsSep(At(r, 1)) /\ IsSep(At(r, 2)) THEN <<"/">> \o Single(Tail(r)) ELSE r
\* (\\s is \\s\.)
RootName(p) == LET r == RootText(p) IN IF IsUnc(p) /\ Len(r) > 2 /\ IsSep(r[Len(r)]) THEN SubSeq(r, 1, Len(r) - 1) ELSE r
IsRooted(p) == IsSep(At(Rest(p), 1))
IsRoot(p) == Elems(p) = <<>>
\* Nothing is above it: the root of a UNC or long path needs no separator.
Absolute(p) == IsRooted(p) \/ IsUnc(p) \/ LongLen(p) > 0
\* --- The place a path names ---
Dot == <<".">>
Dots == <<".", ".">>
RECURSIVE Clean(_, _, _)
Clean(es, abs, acc) ==
  IF es = <<>> THEN acc ELSE
  LET e == es[1] IN
  IF e = Dot THEN Clean(Tail(es), abs, acc)
  ELSE IF e # Dots THEN Clean(Tail(es), abs, Append(acc, e))
  ELSE IF acc # <<>> /\ acc[Len(acc)] # Dots THEN Clean(Tail(es), abs, SubSeq(acc, 1, Len(acc) - 1))
  ELSE Clean(Tail(es), abs, IF abs THEN acc ELSE Append(acc, Dots))
Place(p) == [root |-> RootName(p), abs |-> Absolute(p), names |-> Clean(Elems(p), Absolute(p), <<>>)]
\* (An element that looks like a drive, or like UNC, may become one when what precedes it goes;
\* the device namespace has no . and ..)
Ordinary(p) == ~Device(p) /\ ~(IsUnc(p) /\ At(p, UncAt(p)) = "?") /\ \A k \in 1..Len(Elems(p)) : DriveLen(Elems(p)[k], 1) = 0 /\ ~(LongLen(p) > 0 /\ Lower(Elems(p)[k]) = <<"u", "n", "c">>)
\* --- Cleaning ---
RECURSIVE Glue(_, _)
Glue(es, sep) == IF es = <<>> THEN <<>> ELSE IF Len(es) = 1 THEN es[1] ELSE es[1] \o <<sep>> \o Glue(Tail(es), sep)
\* (Which separators the root itself has, and whether one follows the root of a
\* UNC path, is open.)
Cleaned(p, sep) ==
  LET es == Elems(p)
      c == Clean(es, Absolute(p), <<>>)
      goes == es # <<>> /\ (es[Len(es)] = Dot \/ (es[Len(es)] = Dots /\ c # Append(Clean(SubSeq(es, 1, Len(es) - 1), Absolute(p), <<>>), Dots)))
      trail == (Len(p) > 0 /\ IsSep(p[Len(p)])) \/ goes
  IN (IF IsRooted(p) THEN <<sep>> ELSE <<>>) \o Glue(c, sep) \o (IF trail /\ c # <<>> THEN <<sep>> ELSE <<>>)
CleanedOk(p, sep, out) ==
  LET n == RootLen(out) IN
  IF Device(p) THEN At(p, 3) # "." \/ At(p, 4) = "" \/ (Single(out) = Single(p) /\ IsSep(At(out, 1)) /\ IsSep(At(out, 2)))
  ELSE Ordinary(p) =>
       /\ RootText(out) = RootText(p)
       /\ RootLen(out) = Len(RootText(p))
       /\ \/ From(out, n + 1) = Cleaned(p, sep)
          \/ IsUnc(p) /\ Cleaned(p, sep) \in {<<>>, <<sep>>} /\ From(out, n + 1) \in {<<>>, <<sep>>}
SepsOnly(p, sep) == <<>> \o [i \in 1..Len(p) |-> IF IsSep(p[i]) THEN sep ELSE p[i]]
\* --- Taking apart ---
LastSep(p, b) == LET k == FindBack(p, Len(p), LAMBDA c : c \in Seps) IN IF k >= b THEN k ELSE 0
Name(p) == From(p, Max2(LastSep(p, RootLen(p) + 1), RootLen(p)) + 1)
BaseName(p) == LET n == Name(p)  d == FindBack(n, Len(n), LAMBDA c : c = ".") IN IF d = 0 THEN n ELSE SubSeq(n, 1, d - 1)
Extension(p) == LET b == FindBack(p, Len(p), LAMBDA c : c \in Seps \cup {" ", ":"})
                    d == FindBack(p, Len(p), LAMBDA c : c = ".")
                IN IF d > b /\ d < Len(p) THEN From(p, d) ELSE <<>>
\* The directory: what precedes the separators before the name.
Fixed(p) == LET n == RootLen(p) IN IF (n = 0 \/ p[n] = ":") /\ IsSep(At(p, n + 1)) THEN n + 1 ELSE n
DirOk(p, out) ==
  LET f == Fixed(p)  s == LastSep(p, f + 1)
      r == IF s = 0 THEN 0 ELSE FindBack(p, s, LAMBDA c : c \notin Seps) + 1
  IN IF s = 0 THEN out = SubSeq(p, 1, f)
     ELSE IF r > f + 1 THEN out = SubSeq(p, 1, r - 1)
     ELSE \E k \in f..s : out = SubSeq(p, 1, k)    \* (How many separators stay after the root is open.)
Stripped(p) == LET n == RootLen(p)
                   s == IF IsSep(At(p, n + 1)) THEN n + 1 ELSE n
                   e == FindBack(p, Len(p), LAMBDA c : c \notin Seps)
               IN SubSeq(p, 1, Max2(s, e))
\* One step up: the parent, and the element left behind.
RootEnd(p) == LET n == RootLen(p) IN IF n = 0 \/ p[n] = ":" THEN SkipSep(p, n + 1) - 1 ELSE n
Child(p) == IF Elems(p) = <<>> THEN <<>> ELSE Elems(p)[Len(Elems(p))]
Parent(p) == LET s == RootEnd(p)
                 e == FindBack(p, Len(p), LAMBDA c : c \notin Seps)
                 b == FindBack(p, e, LAMBDA c : c \in Seps)
                 t == FindBack(p, b, LAMBDA c : c \notin Seps)
             IN SubSeq(p, 1, Max2(s, t))
Hidden(p, trail) == LET q == IF trail THEN SubSeq(p, 1, Max2(RootLen(p), FindBack(p, Len(p), LAMBDA c : c \notin Seps))) ELSE p
                    IN At(Name(q), 1) = "."
\* --- Putting together ---
Complete(r) == IsRooted(r) \/ IsUnc(r) \/ LongLen(r) > 0
Join(l, r) ==
  IF Complete(r) THEN r
  ELSE l \o (IF l = <<>> \/ IsSep(l[Len(l)]) \/ (HasDrive(l) /\ Len(l) = RootLen(l)) THEN <<>> ELSE <<"\\">>) \o r
\* --- Special names ---
DevNames == {<<"n", "u", "l">>, <<"a", "u", "x">>, <<"c", "o", "n">>}
NumNames == {<<"c", "o", "m">>, <<"l", "p", "t">>}
IsDeviceName(e) == LET n == Lower(TrimL(SubSeq(e, 1, Find(e, 1, LAMBDA c : c \in {":", "."}) - 1), {" "}))
                   IN n \in DevNames \/ (Len(n) = 4 /\ SubSeq(n, 1, 3) \in NumNames /\ n[4] \in Digits)
NamesDevice(p) == (IsSep(At(p, 1)) /\ IsSep(At(p, 2)) /\ At(p, 3) = "." /\ At(p, 4) \in Seps \cup {""})
                  \/ \E i \in 1..Len(Elems(p)) : IsDeviceName(Elems(p)[i])
\* A UNC path no file system call can use yet: it has no separator after the share.
Incomplete(p) ==
  IF ~(IsSep(At(p, 1)) /\ IsSep(At(p, 2))) THEN FALSE
  ELSE IF At(p, 3) = "?" /\ UncAt(p) <= 4 THEN FALSE
  ELSE LET s == IF IsUnc(p) THEN UncAt(p) ELSE SkipSep(p, 1)
           h == SkipSep(p, SkipElem(p, s))
       IN At(p, s) = " " \/ At(p, SkipElem(p, s)) = "" \/ At(p, h) = " " \/ At(p, SkipElem(p, h)) = ""
=============================================================================
