------------------------------- MODULE Terminal -------------------------------
(* A terminal as the line editor's output sees it: rows of cells, a cursor, and
   the wrap that stays pending after the last column is written.  A cell holds a
   character, " " when blank, or "" for the right half of a wide character.
   A wide character that does not fit in its row leaves a blank there.
   rows keeps what scrolled off the top as well: the screen is its last h rows,
   from base on. *)
EXTENDS Integers, Sequences
CONSTANT Wide                       \* the characters two cells wide
TMin(a, b) == IF a < b THEN a ELSE b
TMax(a, b) == IF a > b THEN a ELSE b
Blanks(n) == [x \in 1..n |-> " "]
BlankRow(w) == Blanks(w)
NewTerm(w, h) == [w |-> w, h |-> h, rows |-> <<BlankRow(w)>>, base |-> 1, r |-> 1, c |-> 0, pend |-> FALSE]
\* A wide character that lost one of its halves is blank.
Whole(row) == [x \in 1..Len(row) |->
    IF row[x] = "" THEN (IF x > 1 /\ row[x-1] \in Wide THEN "" ELSE " ")
    ELSE IF row[x] \in Wide THEN (IF x < Len(row) /\ row[x+1] = "" THEN row[x] ELSE " ")
    ELSE row[x]]
SetRow(T, row) == [T EXCEPT !.rows[T.r] = row]
\* Move to row r of the screen, which grows or scrolls to have it.
Reach(T, r) == LET n == r - Len(T.rows) IN
    [T EXCEPT !.r = r, !.pend = FALSE,
              !.rows = IF n > 0 THEN @ \o [x \in 1..n |-> BlankRow(T.w)] ELSE @,
              !.base = IF r > T.base + T.h - 1 THEN r - T.h + 1 ELSE @]
LineFeed(T) == [Reach(T, T.r + 1) EXCEPT !.c = 0]
RECURSIVE Write(_, _)
Write(T, cells) ==
  IF cells = <<>> THEN T
  ELSE IF T.pend THEN Write(LineFeed(T), cells)
  ELSE LET avail == T.w - T.c
           k0 == TMin(avail, Len(cells))
           k == IF k0 < Len(cells) /\ cells[k0 + 1] = "" THEN k0 - 1 ELSE k0
           row == T.rows[T.r]
           gap == Blanks(IF k < k0 THEN T.w - T.c - k ELSE 0)
           new == SubSeq(row, 1, T.c) \o SubSeq(cells, 1, k) \o gap \o SubSeq(row, T.c + k + Len(gap) + 1, T.w)
           rest == SubSeq(cells, k + 1, Len(cells))
           U == [T EXCEPT !.rows[T.r] = Whole(new)]
           V == IF T.c + k = T.w THEN [U EXCEPT !.c = T.w - 1, !.pend = TRUE] ELSE [U EXCEPT !.c = T.c + k]
       IN IF rest = <<>> THEN V ELSE Write(LineFeed(V), rest)
EraseLine(T, n) == LET row == T.rows[T.r] IN
    SetRow(T, Whole(CASE n = 0 -> SubSeq(row, 1, T.c) \o Blanks(T.w - T.c)
                      [] n = 1 -> Blanks(T.c + 1) \o SubSeq(row, T.c + 2, T.w)
                      [] n = 2 -> Blanks(T.w)))
EraseScreen(T, n) ==
    CASE n = 0 -> [EraseLine(T, 0) EXCEPT !.rows = [x \in 1..Len(@) |-> IF x > T.r THEN BlankRow(T.w) ELSE @[x]]]
      [] n = 2 -> [T EXCEPT !.rows = [x \in 1..Len(@) |-> IF x >= T.base THEN BlankRow(T.w) ELSE @[x]]]
InsertCells(T, n0) == LET row == T.rows[T.r]  n == TMin(n0, T.w - T.c) IN
    SetRow(T, Whole(SubSeq(row, 1, T.c) \o Blanks(n) \o SubSeq(row, T.c + 1, T.w - n)))
DeleteCells(T, n0) == LET row == T.rows[T.r]  n == TMin(n0, T.w - T.c) IN
    SetRow(T, Whole(SubSeq(row, 1, T.c) \o SubSeq(row, T.c + n + 1, T.w) \o Blanks(n)))
\* One operation: the output is a sequence of them.
Do(T, x) ==
  CASE x.o = "text" -> Write(T, x.s)
    [] x.o = "cr" -> [T EXCEPT !.c = 0, !.pend = FALSE]
    [] x.o = "lf" -> LineFeed(T)
    [] x.o = "bs" -> [T EXCEPT !.c = TMax(0, @ - 1), !.pend = FALSE]
    [] x.o = "up" -> Reach(T, TMax(T.base, T.r - x.n))
    [] x.o = "down" -> Reach(T, TMin(T.base + T.h - 1, T.r + x.n))
    [] x.o = "right" -> [T EXCEPT !.c = TMin(T.w - 1, @ + x.n), !.pend = FALSE]
    [] x.o = "left" -> [T EXCEPT !.c = TMax(0, @ - x.n), !.pend = FALSE]
    [] x.o = "col" -> [T EXCEPT !.c = TMin(T.w, x.n) - 1, !.pend = FALSE]
    [] x.o = "pos" -> [Reach(T, T.base + TMin(T.h, x.n) - 1) EXCEPT !.c = TMin(T.w, x.m) - 1]
    [] x.o = "el" -> EraseLine(T, x.n)
    [] x.o = "ed" -> EraseScreen(T, x.n)
    [] x.o = "ich" -> InsertCells([T EXCEPT !.pend = FALSE], x.n)
    [] x.o = "dch" -> DeleteCells([T EXCEPT !.pend = FALSE], x.n)
RECURSIVE FeedR(_, _, _)
FeedR(T, ops, k) == IF k > Len(ops) THEN T ELSE FeedR(Do(T, ops[k]), ops, k + 1)
Feed(T, ops) == FeedR(T, ops, 1)
RECURSIVE TrimRows(_, _)
TrimRows(rows, n) == IF n > 0 /\ \A x \in 1..Len(rows[n]) : rows[n][x] = " " THEN TrimRows(rows, n - 1) ELSE SubSeq(rows, 1, n)
Shown(T) == TrimRows(T.rows, Len(T.rows))
=============================================================================
