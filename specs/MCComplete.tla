----------------------------- MODULE MCComplete -----------------------------
(* All small lines, candidates and settings, and every few commands.         *)
EXTENDS Complete
CONSTANTS Items, MaxCmds
Names == {[m |-> <<"a">>, t |-> TFile], [m |-> <<"a", " ">>, t |-> TFile], [m |-> <<"a", "b">>, t |-> TWord], [m |-> <<"A", "b", "+">>, t |-> TFile],
          [m |-> <<"a", " ", "b", "\\">>, t |-> TDir], [m |-> <<"c">>, t |-> TArg]}
Typed == {<<>>, <<"a">>, <<Q>>, <<Q, "a">>, <<Q, "a", " ">>, <<"a", Q, "b">>, <<Q, "a", Q>>, <<"A">>, <<Q, "A", "b", Q>>}
Rest == {<<>>, <<" ", "y">>, <<Q, " ", "y">>}
Commands == {"complete", "old-menu-complete", "old-menu-complete-backward", "menu-complete", "menu-complete-backward", "insert-completions", "undo"}
VARIABLES s, s0, n, first \* s0: at the first of a run of one command; n: how many
vars == <<s, s0, n, first>>
Item(c) == [m |-> c.m, t |-> c.t, a |-> <<>>, s |-> -1]
Init == /\ \E k \in 1..Items : \E f \in [1..k -> Names] : \E mode \in {0, 1} : \E fold, sup, force, mark \in {0, 1} : \E supq \in {0, 1, 2} : \E w \in Typed : \E r \in Rest :
           /\ Cardinality({f[i] : i \in 1..k}) = k /\ fold <= mode /\ (force = 1 => supq = 0) /\ sup <= supq + fold
           /\ s = NewLine([Begin(mode, fold, 1, <<>>, sup, supq, force, mark) EXCEPT !.items = <<>> \o [i \in 1..k |-> Item(f[i])]], <<"x", " ">> \o w \o r, Len(r))
        /\ s0 = s /\ n = 0 /\ first = ""
Next == /\ n < MaxCmds
        /\ \E c \in Commands :
           /\ first = "" \/ (c = first) \/ (c = "undo" /\ s.before # <<>> /\ n = 1)
           /\ (c = "undo" => s.before # <<>>)
           /\ s' = Do(s, c) /\ n' = n + 1 /\ s0' = s0 /\ first' = IF c = "undo" THEN "undo" ELSE c
Spec == Init /\ [][Next]_vars
Same(a, b) == a.text = b.text /\ a.pt = b.pt
H == Here(s0)
Ms == Chosen(s0, NoQuotes(H.raw))
From == IF H.qc = Q THEN H.start - 1 ELSE H.start
\* Nothing but the word changes.
Around == LET a == Take(s0.text, From) b == After(s0.text, s0.pt)
          IN (n = 1 \/ first \in {"old-menu-complete", "old-menu-complete-backward", "undo"}) =>
             Take(s.text, From) = a /\ Len(s.text) >= From + Len(b) /\ SubSeq(s.text, Len(s.text) - Len(b) + 1, Len(s.text)) = b
\* With nothing to offer, nothing happens.
Nothing == Ms = <<>> /\ n = 1 => Same(s, s0)
Undone == first = "undo" => Same(s, s0)
\* The word as CMD will have it.
Word(l, from) == LET e == LET RECURSIVE go(_, _) go(i, q) == IF i > Len(l) THEN i ELSE IF l[i] = Q THEN go(i + 1, ~q) ELSE IF ~q /\ l[i] \in Breaks THEN i ELSE go(i + 1, q) IN go(from + 1, FALSE)
                 IN NoQuotes(SubSeq(l, from + 1, e - 1))
Whole(c) == IF s0.mark = 0 THEN Word(s.text, From) \in {c.m, DropSeps(c.m)} ELSE Word(s.text, From) = c.m
Quoted == s0.supq = 0 /\ (Files(Ms) \/ s0.force = 1)
AtEnd == s0.pt = Len(s0.text)
\* The only candidate: it is the word, with its quotes closed (but a directory's).
Single == (n = 1 /\ Len(Ms) = 1 /\ first \in {"complete", "menu-complete", "old-menu-complete"} /\ Quoted /\ AtEnd) =>
  /\ Whole(Ms[1])
  /\ (Ms[1].t # TDir /\ s0.supq = 0 => Cardinality({i \in 1..Len(s.text) : s.text[i] = Q}) % 2 = 0)
\* Several: what is typed now begins all of them, and no more could be typed.
Several == (n = 1 /\ Len(Ms) > 1 /\ first = "complete" /\ (s0.mark = 1 \/ ~Files(Ms)) /\ Quoted /\ H.raw # <<Q>>) =>
  LET w == NoQuotes(SubSeq(s.text, From + 1, s.pt))
  IN /\ \A i \in 1..Len(Ms) : IsPre(Norm(s.o, w), Norm(s.o, Ms[i].m))
     /\ Len(w) = CommonLen(s0, Ms)
\* Pressing on comes to each candidate in turn, and back to the word as it was.
Cycle == (first = "old-menu-complete" /\ Len(Ms) > 1) =>
  IF n % (Len(Ms) + 1) = 0 THEN Same(s, s0)
  ELSE (Quoted /\ AtEnd => Whole(Ms[n % (Len(Ms) + 1)]))
Back == (first = "old-menu-complete-backward" /\ Len(Ms) > 1) =>
  IF n % (Len(Ms) + 1) = 0 THEN Same(s, s0)
  ELSE (Quoted /\ AtEnd => Whole(Ms[Len(Ms) + 1 - (n % (Len(Ms) + 1))]))
AllIn == (first = "insert-completions" /\ n = 1 /\ Quoted) => \A i \in 1..Len(Ms) : \E k \in 1..Len(s.text) : Word(s.text, k - 1) = Ms[i].m
Point == s.pt \in 0..Len(s.text)
=============================================================================
