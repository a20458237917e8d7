------------------------------- MODULE Display -------------------------------
(* What the screen shows while a line is edited, and after it is accepted: the
   prompt's lines, the input wrapped at the terminal's width or scrolled within
   the rows it may use, the right side prompt when there is room for it, and the
   cursor at the edited character. *)
EXTENDS Terminal
NL == <<"nl">>
PadTo(row, w) == row \o Blanks(w - Len(row))
\* Characters are sequences of cells: one, two for a wide one ("" its right
\* half), "^X" for a control character, which may continue on the next row.
IsWide(ch) == Len(ch) = 2 /\ ch[2] = ""
Horz(ch) == IF ch = NL THEN <<"^", "J">> ELSE ch
RECURSIVE PutCells(_, _, _)
PutCells(rows, ch, w) ==
  IF ch = <<>> THEN rows
  ELSE LET n == Len(rows) IN
       IF Len(rows[n]) = w THEN PutCells(Append(rows, <<>>), ch, w)
       ELSE PutCells([rows EXCEPT ![n] = Append(@, Head(ch))], Tail(ch), w)
\* [rows, pos]: pos[k] is the row and column (from 0) of character k, and of the end.
RECURSIVE LayR(_, _, _, _, _)
LayR(chars, k, rows, pos, w) ==
  LET n == Len(rows)  col == Len(rows[n]) IN
  IF k > Len(chars)
  THEN IF col = w THEN [rows |-> Append(rows, <<>>), pos |-> Append(pos, <<n, 0>>)]
                  ELSE [rows |-> rows, pos |-> Append(pos, <<n - 1, col>>)]
  ELSE LET ch == chars[k] IN
       IF ch = NL THEN LayR(chars, k + 1, Append(rows, <<>>), Append(pos, <<n - 1, TMin(col, w - 1)>>), w)
       ELSE IF col = w \/ (IsWide(ch) /\ col + 2 > w)
            THEN LayR(chars, k, Append([rows EXCEPT ![n] = PadTo(@, w)], <<>>), pos, w)
            ELSE LayR(chars, k + 1, IF IsWide(ch) THEN [rows EXCEPT ![n] = @ \o ch] ELSE PutCells(rows, ch, w),
                      Append(pos, <<n - 1, col>>), w)
Lay(chars, w) == LayR(chars, 1, <<<<>>>>, <<>>, w)
\* The input starts where the prompt ends: on a new row after a full one.
LayInput(prompt, text, w) == LayR(text, 1, Lay(prompt, w).rows, <<>>, w)
\* The rows of the prompt's lines before its last one.
RECURSIVE PrefixRows(_, _)
PrefixRows(lines, w) ==
  IF lines = <<>> THEN <<>>
  ELSE LET L == Lay(Head(lines), w).rows
           rows == IF Len(L) > 1 /\ L[Len(L)] = <<>> THEN SubSeq(L, 1, Len(L) - 1) ELSE L
       IN rows \o PrefixRows(Tail(lines), w)
MaxRows(m) == TMax(1, IF m.max = 0 THEN m.h ELSE TMin(m.max, m.h))
Markable(row) == Len(row) > 2
TopMark(row, w) == IF row = <<>> THEN <<"<">> ELSE IF Len(row) > 1 /\ row[2] = "" THEN <<"<", " ">> \o SubSeq(row, 3, Len(row)) ELSE <<"<">> \o Tail(row)
BotMark(row, w) == IF Markable(row) THEN Whole(SubSeq(PadTo(row, w), 1, w - 2)) \o <<">">> ELSE row
\* The right side prompt is shown beside a single row that leaves room for it.
WithRight(m, row) == IF Len(m.right) > 0 /\ Len(row) + 1 + Len(m.right) < m.w THEN PadTo(row, m.w - Len(m.right)) \o m.right ELSE row
\* A view is what may be shown: its rows, the cursor in them, and the row the
\* cursor is on after the line is accepted.
Rows1(V, m) == IF Len(V.rows) = 1 THEN [V EXCEPT !.rows = <<WithRight(m, V.rows[1])>>] ELSE V
VertViews(m, text, pt) ==
  LET L == LayInput(m.prompt, text, m.w)
      n == Len(L.rows)
      bot == Len(Lay(m.prompt, m.w).rows) - 1
      k == TMin(n - bot, MaxRows(m))
      cur == L.pos[pt + 1]
      mark(t, x) == LET row == L.rows[x + 1]
                        a == IF x = t /\ t > bot THEN TopMark(row, m.w) ELSE row
                    IN IF x = t + k - 1 /\ x < n - 1 THEN BotMark(a, m.w) ELSE a
      hidden(t) == \/ cur[1] = t /\ t > bot /\ cur[2] = 0
                   \/ cur[1] = t + k - 1 /\ cur[1] < n - 1 /\ Markable(L.rows[cur[1] + 1]) /\ cur[2] >= m.w - 2
      tops == {t \in bot..(n - k) : t <= cur[1] /\ cur[1] < t + k /\ ~hidden(t)}
  IN {Rows1([rows |-> SubSeq(L.rows, 1, bot) \o [x \in 1..k |-> mark(t, t + x - 1)],
       r |-> bot + cur[1] - t, c |-> cur[2],
       end |-> IF t + k = n /\ n > 1 /\ L.rows[n] = <<>> THEN bot + k - 1 ELSE bot + k], m) : t \in tops}
RECURSIVE HorzFit(_, _, _, _)
\* Characters from k on that fit within limit columns; [row, next, cols].
HorzFit(chars, k, F, limit) ==
  IF k > Len(chars) THEN F
  ELSE LET ch == Horz(chars[k]) IN
       IF Len(F.row) + Len(ch) > limit THEN F
       ELSE HorzFit(chars, k + 1, [row |-> F.row \o ch, next |-> k + 1, cols |-> [F.cols EXCEPT ![k] = Len(F.row)]], limit)
HorzViews(m, text, pt) ==
  LET PL == Lay(m.prompt, m.w)
      bot == Len(PL.rows) - 1
      tail == PL.rows[bot + 1]
      fit(s) == HorzFit(text, s, [row |-> IF s = 1 THEN tail ELSE <<"<">>, next |-> s, cols |-> [x \in 1..Len(text) |-> 0 - 1]], m.w - 2)
      view(s, F) == LET more == F.next <= Len(text)
                        row == IF more THEN Append(F.row, ">") ELSE F.row
                    IN Rows1([rows |-> SubSeq(PL.rows, 1, bot) \o <<row>>, r |-> bot,
                        c |-> IF pt = Len(text) THEN Len(F.row) ELSE F.cols[pt + 1],
                        end |-> IF bot > 0 /\ row = <<>> THEN bot ELSE bot + 1], m)
      \* A prompt that leaves no room hides the first character, cursor and all.
      none == {F \in {fit(1)} : pt = 0 /\ F.next = 1 /\ text # <<>>}
  IN {[view(1, F) EXCEPT !.c = Len(tail)] : F \in none} \union UNION {{view(s, F) : F \in {F \in {fit(s)} : F.next > pt + 1 \/ (pt = Len(text) /\ F.next > pt)}} : s \in 1..(pt + 1)}
IsHorz(m) == LET bot == Len(Lay(m.prompt, m.w).rows) - 1 IN m.horz \/ MaxRows(m) <= 1 \/ bot + MaxRows(m) > m.h
Views(m, text, pt) == IF IsHorz(m) THEN HorzViews(m, text, pt) ELSE VertViews(m, text, pt)
=============================================================================
