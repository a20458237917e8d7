----------------------------- MODULE MCMatches -----------------------------
(* A line being typed over small sets of candidates: what the selection     *)
(* rules guarantee, whatever the candidates, options and words.             *)
EXTENDS Matches
CONSTANTS Alphabet, MaxName, MaxNeedle, MaxCands, Types
VARIABLES o, cs, needle, vis, prev
vars == <<o, cs, needle, vis, prev>>
TextsN(A, n) == UNION {[1..k -> A] : k \in 0..n}
NoRuns(t) == \A i \in 1..Len(t) - 1 : ~(t[i] \in Seps /\ t[i + 1] \in Seps)
Names == {t \in TextsN(Alphabet \ {"*", "?"}, MaxName) : t # <<>> /\ NoRuns(t)}
Tup(t) == <<>> \o t
Cand(n, m, t) == [m |-> Tup(m), t |-> t, d |-> "", e |-> "", n |-> n]
Options == [wild : BOOLEAN, sub : BOOLEAN, sort : {"before", "with"}, rlh : {TRUE}, hid : {TRUE}, sys : {TRUE}, mode : {0, 1, 2}, fuzzy : {FALSE}, tr : {"off"}]
Init == /\ o \in Options /\ cs = {} /\ needle = <<>> /\ vis = {} /\ prev = {}
Add == /\ needle = <<>> /\ Cardinality(cs) < MaxCands
       /\ \E m \in Names, t \in Types :
            LET c == Cand(Cardinality(cs), m, t)
            IN (\A x \in cs : ~Dup(c, x)) /\ cs' = cs \cup {c}
       /\ vis' = {c.n : c \in cs'} /\ prev' = {c.n : c \in cs'} /\ UNCHANGED <<o, needle>>
Type == /\ cs # {} /\ Len(needle) < MaxNeedle
        /\ \E ch \in Alphabet : needle' = Append(needle, ch)
        /\ NoRuns(needle')
        /\ vis' = Selected(o, needle', cs) /\ prev' = vis /\ UNCHANGED <<o, cs>>
Next == Add \/ Type
Spec == Init /\ [][Next]_vars
Plain_(t) == \A i \in 1..Len(t) : ~Wild(t[i])
Cn(S) == {c \in cs : c.n \in S}
Seq_(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : y.n <= z.n IN <<x>> \o go(T \ {x}) IN go(S)
Only == vis \subseteq {c.n : c \in cs}
\* Typing one more character never brings in more, unless substrings are tried.
Narrows == (~o.sub /\ Plain_(needle) /\ needle # <<>>) => vis \subseteq prev
\* A candidate that was typed in full is offered (a wildcard word ends in *, which needs something after a separator).
Exact == \A c \in cs : (c.m = needle /\ (~o.wild \/ ~EndsSep(c.m))) => c.n \in vis
\* The common beginning goes on from what was typed.
Extends == (~o.sub /\ ~o.wild /\ vis # {}) => IsPre(Norm(o, needle), Norm(o, Common(o, Seq_(Cn(vis)))))
\* ... and begins each of them.
CommonBegins == \A c \in Cn(vis) : IsPre(Norm(o, Common(o, Seq_(Cn(vis)))), Norm(o, c.m))
\* Without wildcards in the word, wildcard matching is prefix matching.
WildIsPrefix == (o.wild /\ Plain_(needle) /\ ~EndsSep(needle) /\ ~o.sub) =>
  vis = {c.n : c \in {x \in cs : IsPre(Norm(o, needle), Norm(o, DropSeps(x.m)))}}
\* Substrings are tried only when nothing else was found, and find what contains the word.
SubOnlyThen == (o.sub /\ ~o.wild /\ Plain_(needle)) =>
  LET first == Selected([o EXCEPT !.sub = FALSE], needle, cs)
  IN IF first # {} THEN vis = first
     ELSE \A c \in Cn(vis) : \E i \in 1..Len(c.m) : Len(AfterLastSep(needle)) + i - 1 <= Len(c.m) /\ Norm(o, AfterLastSep(needle)) = Norm(o, SubSeq(c.m, i, i + Len(AfterLastSep(needle)) - 1))
\* Keeping what a wildcard word matches, twice, keeps the same.
RestrictTwice == LET r == Restricted(o, needle, cs) IN Restricted(o, needle, Cn(r)) = r
\* A star more matches no less.
StarMore == \A c \in cs : MatchesPattern(o, needle, c) => MatchesPattern(o, Append(needle, "*"), c) /\ MatchesPattern(o, <<"*">> \o needle, c)
\* The order is one that sorting can produce.
Order == \A a, b, c \in cs : /\ ~(Before(o, a, b) /\ Before(o, b, a))
                             /\ (Before(o, a, b) /\ Before(o, b, c)) => Before(o, a, c)
=============================================================================
