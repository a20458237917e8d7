------------------------------- MODULE Recall -------------------------------
(* Recalling remembered lines: moving among them, searching them, editing   *)
(* and reusing them, and what is remembered when a line is accepted.        *)
EXTENDS Chars
\* A state s: db: what is saved, [id, t] oldest first; h: what can be recalled,
\* [id, o, t, u]: its own text, the text as edited, and how often it was edited;
\* w: which one is on the line, from 0 (Len(h): a new line); text, pt, u: the line,
\* the cursor, how often the line was edited; saved: <<>> or the new line left behind;
\* use: going back starts with the line at w itself; init: the line reused last, or -1;
\* ssp: the line last found on this line, or -1; sp, slen, sstr, fl, prev: the search
\* (where, how much was typed, what for, "p" at the beginning or "s" anywhere, what was
\* found last); last, before: the last command, and the one before removing.
N(s) == Len(s.h)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Begin(fold, pae, sticky, dupe) ==
  [fold |-> fold, pae |-> pae, sticky |-> sticky, dupe |-> dupe, ids |-> 0, db |-> <<>>, h |-> <<>>, w |-> 0, text |-> <<>>, pt |-> 0, u |-> 0, saved |-> <<>>,
   use |-> FALSE, init |-> -1, ssp |-> -1, sp |-> 0 - 99, slen |-> 0, sstr |-> <<>>, fl |-> "p", prev |-> <<>>, last |-> "", before |-> ""]
\* What is saved: a line once, if so chosen.
Skip(t) == t = <<>> \/ t[1] \in {" ", "\t"}
Save(s, t) ==
  IF Skip(t) \/ (s.dupe = "ignore" /\ \E k \in DOMAIN s.db : s.db[k].t = t) THEN s
  ELSE [s EXCEPT !.ids = @ + 1, !.db = Append(IF s.dupe = "erase_prev" THEN SelectSeq(@, LAMBDA x : x.t # t) ELSE @, [id |-> s.ids + 1, t |-> t])]
Fresh(s) == [s EXCEPT !.h = <<>> \o [k \in DOMAIN s.db |-> [id |-> s.db[k].id, o |-> s.db[k].t, t |-> s.db[k].t, u |-> 0]]]
------------------------------------------------------------------------------
(* Moving. Edits to recalled lines stay while other lines are visited.      *)
Keep(s) == IF s.w < N(s) /\ s.u # s.h[s.w + 1].u THEN [s EXCEPT !.h[s.w + 1] = [@ EXCEPT !.t = s.text, !.u = s.u], !.u = 0] ELSE s
Show(s, k) == [s EXCEPT !.w = k, !.text = s.h[k + 1].t, !.u = s.h[k + 1].u, !.pt = Len(s.h[k + 1].t)]
Return(s) == IF s.saved = <<>> THEN s ELSE [s EXCEPT !.text = s.saved[1].t, !.u = s.saved[1].u, !.pt = Len(s.saved[1].t), !.saved = <<>>]
Back(s, n) ==
  LET a == Keep([s EXCEPT !.saved = IF @ = <<>> THEN <<[t |-> s.text, u |-> s.u]>> ELSE @])
      b == [a EXCEPT !.use = FALSE]
      can == IF s.use THEN s.w < N(s) ELSE s.w > 0
      far == IF s.use THEN n - 1 ELSE n
  IN IF can THEN Show(b, s.w - Min2(far, s.w))
     ELSE [b EXCEPT !.saved = s.saved, !.u = IF s.w < N(s) THEN a.h[s.w + 1].u ELSE @]
On(s, n) ==
  LET a == Keep([s EXCEPT !.use = FALSE, !.saved = IF s.use /\ @ = <<>> THEN <<[t |-> s.text, u |-> s.u]>> ELSE @])
  IN IF s.w + n < N(s) THEN Show(a, s.w + n) ELSE Return([a EXCEPT !.w = N(s)])
Move(s, n) == IF n = 0 THEN s ELSE IF n < 0 THEN Back(s, 0 - n) ELSE On(s, n)
Oldest(s) == Move(s, 0 - (1 + s.w))
Newest(s) == Return([Keep(s) EXCEPT !.w = N(s), !.use = FALSE])
\* Line number n (from 1); without a number, the oldest.
Fetch(s, n, arg) == LET m == IF n >= 0 THEN 1 + s.w - n ELSE 0 - n
                    IN IF arg /\ m > 0 /\ m <= s.w THEN Move(s, 0 - m) ELSE Oldest(s)
------------------------------------------------------------------------------
(* Searching for what was typed before the cursor.                          *)
Searching(s) == s.last \in {"p", "s"} \/ (s.last = "remove" /\ s.before \in {"p", "s"})
Found(s) == IF Searching(s) /\ s.slen > 0 THEN s.sp ELSE -1
Where(s) == IF Found(s) >= 0 THEN Found(s) ELSE s.w
Same(s, a, b) == IF s.fold = 1 THEN Lower(a) = Lower(b) ELSE a = b
HasAt(s, t, k) == k + Len(s.sstr) - 1 <= Len(t) /\ Same(s, SubSeq(t, k, k + Len(s.sstr) - 1), s.sstr)
Places(s, t) == {k \in (IF s.fl = "p" THEN {1} ELSE 1..Len(t)) : HasAt(s, t, k)}
\* The nearest line from k on, and where in it the text is (from 0).
Hits(s, k, dir) == IF k < 0 \/ k > N(s) THEN {} ELSE {j \in 0..N(s) - 1 : (IF dir < 0 THEN j <= k ELSE j >= k) /\ Places(s, s.h[j + 1].t) # {}}
Nearest(S, dir) == IF dir < 0 THEN CHOOSE j \in S : \A m \in S : m <= j ELSE CHOOSE j \in S : \A m \in S : m >= j
Column(s, j, dir) == (IF dir < 0 THEN CHOOSE k \in Places(s, s.h[j + 1].t) : \A m \in Places(s, s.h[j + 1].t) : m <= k
                      ELSE CHOOSE k \in Places(s, s.h[j + 1].t) : \A m \in Places(s, s.h[j + 1].t) : m >= k) - 1
\* f: [sp, prev, at: found anything, col]. A line like the one found last does not count.
RECURSIVE Look(_, _, _, _)
Look(s, f, n, dir) ==
  IF n = 0 THEN f
  ELSE LET S == Hits(s, f.sp + dir, dir)
       IN IF S = {} THEN [f EXCEPT !.col = IF f.sp + dir < 0 \/ f.sp + dir > N(s) THEN @ ELSE -1]
          ELSE LET j == Nearest(S, dir)  t == s.h[j + 1].t
                   dup == f.prev = <<t>>
               IN Look(s, [sp |-> j, prev |-> <<t>>, at |-> TRUE, col |-> Column(s, j, dir)], IF dup THEN n ELSE n - 1, dir)
StartSearch(s, fl) ==
  LET a == IF s.use THEN [Keep(s) EXCEPT !.saved = <<>>] ELSE s
  IN [a EXCEPT !.sp = IF s.use THEN N(s) ELSE s.w, !.slen = s.pt, !.fl = fl, !.prev = <<>>, !.sstr = IF s.pt > 0 THEN Take(s.text, s.pt) ELSE @]
AtEnd(s, end, pt) == IF s.fl = "p" /\ s.pae = 1 THEN end ELSE pt
Search(s, fl, n, on) ==
  IF n = 0 THEN s
  ELSE LET a == IF on THEN s ELSE StartSearch(s, fl)
       IN IF a.slen = 0 THEN Move(a, n)
          ELSE LET b == IF a.use THEN [a EXCEPT !.w = N(s), !.use = FALSE] ELSE a
                   f == Look(b, [sp |-> b.sp, prev |-> b.prev, at |-> FALSE, col |-> -1], Abs(n), IF n < 0 THEN -1 ELSE 1)
               IN IF ~f.at THEN [b EXCEPT !.pt = AtEnd(b, Len(b.text), Min2(b.slen, Len(b.text)))]
                  ELSE LET c == Move([b EXCEPT !.sp = f.sp, !.prev = f.prev], f.sp - b.w)
                       IN [c EXCEPT !.pt = IF b.fl = "p" THEN AtEnd(b, Len(c.text), b.slen) ELSE IF f.col >= 0 THEN f.col ELSE Len(c.text)]
Goes(s, fl) == s.last = fl \/ (s.last = "remove" /\ s.before = fl)
------------------------------------------------------------------------------
(* Editing, adding and removing.                                            *)
\* Changing the line ends going on from the line reused last.
Changing(s) == IF s.sticky = 1 /\ s.init >= 0 THEN [s EXCEPT !.init = -1, !.use = FALSE, !.w = IF s.text = <<>> THEN N(s) ELSE @] ELSE s
Type(s, c) == LET a == Changing(s) IN [a EXCEPT !.text = Take(s.text, s.pt) \o c \o SubSeq(s.text, s.pt + 1, Len(s.text)), !.pt = @ + Len(c), !.u = @ + 1]
Rubout(s) == IF s.pt = 0 THEN s
             ELSE LET a == Changing(s) IN [a EXCEPT !.text = Take(s.text, s.pt - 1) \o SubSeq(s.text, s.pt + 1, Len(s.text)), !.pt = @ - 1, !.u = @ + 1]
Add(s) ==
  IF Skip(s.text) \/ s.use THEN s
  ELSE LET a == Save(s, s.text)
           b == Keep(a)
           c == [b EXCEPT !.u = IF s.w < N(s) THEN 0 ELSE @, !.h = Append(@, [id |-> a.ids, o |-> s.text, t |-> s.text, u |-> 0])]
       IN [Changing([c EXCEPT !.w = N(c), !.saved = <<>>]) EXCEPT !.text = <<>>, !.pt = 0]
\* Only a line that is as it is remembered is removed; the next one found comes instead.
Cut(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Remove(s) ==
  LET e == Where(s)
      before == IF s.last = "remove" THEN s.before ELSE s.last
      srch == Found(s) >= 0
      is == IF e < N(s) THEN {k \in DOMAIN s.db : s.db[k].id = s.h[e + 1].id} ELSE {}
      try(x, n) == IF srch THEN Search(x, s.fl, n, TRUE) ELSE Move(x, n)
  IN IF s.use \/ e >= N(s) \/ (s.w < N(s) /\ s.u # 0) \/ s.text # s.h[e + 1].t \/ s.h[e + 1].u # 0 \/ is = {} THEN [s EXCEPT !.before = before]
     ELSE LET a == [s EXCEPT !.before = before, !.db = Cut(@, CHOOSE k \in is : TRUE)]
              b == try(a, -1)
              c == IF Where(b) = e THEN try(b, 1) ELSE b
              d == [c EXCEPT !.h = Cut(@, e + 1)]
          IN IF Where(c) = e THEN [d EXCEPT !.text = <<>>, !.pt = 0, !.u = 0, !.w = N(d), !.saved = <<>>]
             ELSE [d EXCEPT !.sp = IF srch /\ e < @ THEN @ - 1 ELSE @, !.w = IF e < @ THEN @ - 1 ELSE @]
------------------------------------------------------------------------------
(* Accepting the line, and the next line.                                   *)
NewLine(s) == [s EXCEPT !.w = N(s), !.text = <<>>, !.pt = 0, !.u = 0, !.saved = <<>>, !.sp = 0 - 99, !.ssp = -1]
Resume(s) == IF s.init >= 0 THEN [s EXCEPT !.w = IF s.init <= N(s) THEN s.init ELSE @, !.use = TRUE] ELSE s
Accept(s) ==
  LET init == IF s.sticky = 0 THEN -1 ELSE IF s.w < N(s) THEN s.w ELSE IF s.ssp >= 0 /\ s.ssp < N(s) THEN s.ssp ELSE s.init
      \* (A line edited and left is not what is saved.)
      line(k) == IF k = s.w /\ s.u # 0 THEN <<s.h[k + 1].o>> ELSE IF s.h[k + 1].u # 0 THEN <<>> ELSE <<s.h[k + 1].t>>
      again == s.text # <<>> /\ init >= 0 /\ init < N(s) /\ line(init) = <<s.text>>
  IN IF again THEN Resume(NewLine(Fresh([s EXCEPT !.init = init])))
     ELSE NewLine(Fresh(Save([s EXCEPT !.init = -1, !.use = FALSE], s.text)))
\* Accepting it, and then the line after it (or line number n) comes.
GetNext(s, n, arg) ==
  LET k == IF arg THEN n - 1 ELSE Where(s) + 1
      a == IF s.w < N(s) /\ s.u # 0 THEN [s EXCEPT !.h[s.w + 1] = [@ EXCEPT !.t = s.h[s.w + 1].o, !.u = 0]] ELSE s
      b == NewLine([a EXCEPT !.init = -1, !.use = FALSE])
  IN IF k < 0 THEN NewLine(Fresh(b)) ELSE Move(b, k - N(b))
------------------------------------------------------------------------------
Commands == {"previous-history", "next-history", "beginning-of-history", "end-of-history", "fetch-history", "history-search-backward", "history-search-forward",
             "history-substring-search-backward", "history-substring-search-forward", "backward-delete-char", "backward-char", "add-history", "remove-history",
             "accept-line", "operate-and-get-next"}
Kind(c) == CASE c \in {"history-search-backward", "history-search-forward"} -> "p"
             [] c \in {"history-substring-search-backward", "history-substring-search-forward"} -> "s"
             [] c = "remove-history" -> "remove" [] OTHER -> ""
Capture(s) == IF Found(s) >= 0 THEN [s EXCEPT !.ssp = Found(s)] ELSE s
Do(s0, c, n, arg) ==
  LET s == Capture(s0)
      r == CASE c = "previous-history" -> Move(s, 0 - n) [] c = "next-history" -> Move(s, n)
             [] c = "beginning-of-history" -> Oldest(s) [] c = "end-of-history" -> Newest(s) [] c = "fetch-history" -> Fetch(s, n, arg)
             [] Kind(c) \in {"p", "s"} -> Search(s, Kind(c), IF c \in {"history-search-backward", "history-substring-search-backward"} THEN 0 - n ELSE n, Goes(s, Kind(c)))
             [] c = "backward-delete-char" -> Rubout(s) [] c = "backward-char" -> [s EXCEPT !.pt = Max2(0, @ - n)]
             [] c = "add-history" -> Add(s) [] c = "remove-history" -> Remove(s)
             [] c = "accept-line" -> Accept(s) [] c = "operate-and-get-next" -> GetNext(s, n, arg)
  IN [r EXCEPT !.last = Kind(c)]
Key(s, c) == [Type(Capture(s), c) EXCEPT !.last = ""]
=============================================================================
