------------------------------- MODULE MCDisplay -------------------------------
(* Two parts.  The update of a row from what it shows to what it should show, by
   skipping what is common at both ends, inserting or deleting columns, writing
   the difference and erasing the rest: for every pair of short rows the terminal
   then shows the new row.  And the layout: every view shows the edited character
   and nothing but the prompt and the line. *)
EXTENDS Display, FiniteSets
CONSTANTS W,            \* the terminal's width
          N,            \* longest row, in characters
          X             \* columns before the row's text (the prompt's)
WideChars == {"Wa"}
Alphabet == {<<"a">>, <<"b">>, <<" ">>, <<"Wa", "">>}
RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET S == SeqsUpTo(n - 1) IN S \union {Append(s, c) : s \in S, c \in Alphabet}
RECURSIVE Cells(_)
Cells(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cells(Tail(s))
Rows == {s \in SeqsUpTo(N) : X + Len(Cells(s)) < W}
RECURSIVE Prefix(_, _)
Prefix(o, d) == IF o # <<>> /\ d # <<>> /\ Head(o) = Head(d) THEN 1 + Prefix(Tail(o), Tail(d)) ELSE 0
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Suffix(_, _)
Suffix(o, d) == IF o # <<>> /\ d # <<>> /\ o[Len(o)] = d[Len(d)] THEN 1 + Suffix(Front(o), Front(d)) ELSE 0
\* A suffix starts at a one cell character, so that it can be found backwards.
RECURSIVE Snap(_, _)
Snap(d, n) == IF n > 0 /\ Len(d[Len(d) - n + 1]) > 1 THEN Snap(d, n - 1) ELSE n
Col(n) == IF n = 0 THEN [o |-> "cr"] ELSE [o |-> "col", n |-> n + 1]
\* The operations that turn row o into row d, both from column X.
Update(o, d) ==
  LET p == Prefix(o, d)
      o1 == SubSeq(o, p + 1, Len(o))
      d1 == SubSeq(d, p + 1, Len(d))
      s == Snap(d1, Suffix(o1, d1))
      om == SubSeq(o1, 1, Len(o1) - s)
      dm == SubSeq(d1, 1, Len(d1) - s)
      left == X + Len(Cells(SubSeq(d, 1, p)))
      delta == IF s > 0 THEN Len(Cells(dm)) - Len(Cells(om)) ELSE 0
      right == left + Len(Cells(dm))
      last == X + Len(Cells(d))
      blank == \A x \in 1..s : d1[Len(d1) - s + x] = <<" ">>
  IN <<Col(left)>>
     \o (IF delta > 0 THEN <<[o |-> "ich", n |-> delta]>> ELSE IF delta < 0 THEN <<[o |-> "dch", n |-> 0 - delta]>> ELSE <<>>)
     \o (IF dm # <<>> THEN <<[o |-> "text", s |-> Cells(dm)]>> ELSE <<>>)
     \o (IF last < X + Len(Cells(o))
         THEN IF blank THEN <<[o |-> "el", n |-> 0]>>
              ELSE <<Col(last), [o |-> "text", s |-> Blanks(X + Len(Cells(o)) - last)]>>
         ELSE <<>>)
Showing(s) == [NewTerm(W, 2) EXCEPT !.rows = <<PadTo([x \in 1..X |-> ">"] \o Cells(s), W)>>]
VARIABLES was, now, part
Init == \/ part = "row" /\ was \in Rows /\ now \in Rows
        \/ part = "view" /\ was \in SeqsUpTo(N) /\ now \in {[w |-> W, h |-> h, max |-> k, horz |-> z, prompt |-> [x \in 1..p |-> <<">">>], right |-> [x \in 1..r |-> "R"]] :
                h \in {3}, k \in {0, 1, 2}, z \in BOOLEAN, p \in {0, 1, W - 1, W, W + 1}, r \in {0, 2}}
Next == UNCHANGED <<was, now, part>>
Spec == Init /\ [][Next]_<<was, now, part>>
RowShown == part = "row" => LET T == Feed(Showing(was), Update(was, now)) IN T.rows = Showing(now).rows /\ ~T.pend
\* The character at the cursor, and all its cells, are where the view says.
ViewShown == part = "view" => \A pt \in 0..Len(was) : \A v \in Views(now, was, pt) :
    /\ v.r + 1 \in 1..Len(v.rows) \/ v.rows = <<>>
    /\ v.c \in 0..(W - 1)
    /\ \A x \in 1..Len(v.rows) : Len(v.rows[x]) <= W
    /\ pt < Len(was) /\ Len(now.prompt) < W - 4 => SubSeq(v.rows[v.r + 1], v.c + 1, v.c + Len(was[pt + 1])) = was[pt + 1]
\* There is always something to show.
SomeView == part = "view" => \A pt \in 0..Len(was) : Views(now, was, pt) # {}
=============================================================================
