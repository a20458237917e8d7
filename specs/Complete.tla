------------------------------ MODULE Complete ------------------------------
(* What the completion commands make of the line: complete, the two kinds   *)
(* of menu completion, and insert-completions.                              *)
(* s: o (how texts compare, see Matches), fold, wrap, append, sup, supq,    *)
(* force, mark; items (candidates [m, t, a, s], in order); text, pt (how    *)
(* many characters before the cursor); last (command); menu; before (undo). *)
EXTENDS Matches
Q == "\""
NeedQuote == {" ", "&", "(", ")", "[", "]", "{", "}", "^", "=", ";", "!", "%", "'", "+", ",", "`", "~"}
Breaks == {" ", "\t", "\n", "'", "`", "=", "+", ";", ",", "(", ")", "[", "]", "{", "}"}
After(t, n) == SubSeq(t, n + 1, Len(t))
NoQuotes(t) == SelectSeq(t, LAMBDA c : c # Q)
\* The word at the cursor: how many characters come before it.  An opening
\* quote is not part of it.
WordStart(text, pt) ==
  LET RECURSIVE go(_, _, _)
      go(i, quoted, start) == IF i > pt THEN start
                              ELSE IF text[i] = Q THEN go(i + 1, ~quoted, start)
                              ELSE IF ~quoted /\ text[i] \in Breaks THEN go(i + 1, quoted, i)
                              ELSE go(i + 1, quoted, start)
      w == go(1, FALSE, 0)
  IN IF w < pt /\ text[w + 1] = Q THEN w + 1 ELSE w
\* The candidates it selects, in order.
Chosen(s, needle) == SelectSeq(s.items, LAMBDA c : MatchesPattern(s.o, needle \o <<"*">>, c))
Files(ms) == \E i \in 1..Len(ms) : Pathish(ms[i].t)
Quoting(s, ms) == s.supq # 1 /\ (Files(ms) \/ s.force = 1)
Needs(t) == \E i \in 1..Len(t) : t[i] \in NeedQuote
\* What several candidates have in common.
CommonLen(s, ms) == Len(Common(s.o, ms))
CommonText(s, ms, raw) ==
  LET low == CommonLen(s, ms)
      lx == Min2(low, Len(raw))
      like == {i \in 1..Len(ms) : Take(ms[i].m, lx) = Take(raw, lx)}
      m == IF s.fold = 1 /\ like # {} THEN ms[CHOOSE i \in like : \A j \in like : i <= j].m ELSE ms[1].m
  IN IF low = 0 /\ raw # <<>> THEN raw ELSE Take(m, low)
\* Some candidate goes on with a character that needs quotes.
QuoteCommon(s, ms, raw) ==
  LET low == CommonLen(s, ms)
  IN /\ Quoting(s, ms) /\ ~(low = 0 /\ raw # <<>>)
     /\ \E i \in 1..Len(ms) : Len(ms[i].m) > low /\ ms[i].m[low + 1] \in NeedQuote
\* Without mark-directories, a directory goes in without its last separator,
\* unless that is how it was already (or when completing began).
StripQ(t) == TrimR(TrimL(t, {Q}), {Q})
Alike(s, a, b) ==   \* alike as paths: a last separator does not count
  LET f(c) == IF c \in Seps THEN "/" ELSE IF s.fold = 1 THEN Low(c) ELSE c
      g(t) == [i \in 1..Len(t) |-> f(t[i])]
      x == g(a) y == g(b)
  IN x = y
Unmarked(s, was, orig, rep, l) ==
  LET w == StripQ(was) r == StripQ(rep)
      drop == s.mark = 0 /\ (w = <<>> \/ (r # <<>> /\ ~Alike(s, w, r) /\ ~Alike(s, StripQ(orig), r)))
      b == DropSeps(Take(l.text, l.pt))
  IN IF drop THEN [l EXCEPT !.text = b \o After(l.text, l.pt), !.pt = Len(b)] ELSE l
(* Putting t in the place of the characters from start to the cursor.       *)
(* l: [text, pt, qc]                                                        *)
Put(s, orig, l, start, t, quoting, forced) ==
  LET quote == quoting /\ (forced \/ Needs(t))
      qc == IF quote THEN Q ELSE IF forced THEN Q ELSE l.qc
      rep == IF quote THEN <<Q>> \o t ELSE t
      from == IF qc = Q /\ At(rep, 1) = Q /\ At(l.text, start) = Q THEN start - 1 ELSE start
  IN Unmarked(s, SubSeq(l.text, from + 1, l.pt), orig, rep, [text |-> Take(l.text, from) \o rep \o After(l.text, l.pt), pt |-> from + Len(rep), qc |-> qc])
\* A whole candidate is finished: the quote closed and a character appended,
\* at the end of the line, except after a directory.
Finish(s, l, start, c) ==
  LET open == l.qc = Q /\ l.pt > 0 /\ s.supq # 2 /\ l.text[l.pt] # Q /\ (At(l.text, start + 1) = Q \/ At(l.text, start) = Q)
      none == IF c.s >= 0 THEN c.s = 1 ELSE s.sup = 1
      app == IF c.a # <<>> THEN c.a ELSE IF s.append # <<>> THEN s.append ELSE <<" ">>
      tail == (IF open THEN <<Q>> ELSE <<>>) \o (IF none THEN <<>> ELSE app)
  IN IF Base(c.t) = TDir \/ l.pt < Len(l.text) THEN l ELSE [l EXCEPT !.text = @ \o tail, !.pt = @ + Len(tail)]
Here(s) == LET start == WordStart(s.text, s.pt) IN
  [start |-> start, raw |-> SubSeq(s.text, start + 1, s.pt), qc |-> IF At(s.text, start) = Q THEN Q ELSE ""]
Now(s, l, cmd, changed) == [s EXCEPT !.text = l.text, !.pt = l.pt, !.last = cmd, !.before = IF changed THEN <<[text |-> s.text, pt |-> s.pt]>> ELSE <<>>]
Line(s, qc) == [text |-> s.text, pt |-> s.pt, qc |-> qc]

Complete(s) ==
  LET h == Here(s) ms == Chosen(s, NoQuotes(h.raw)) quoting == Quoting(s, ms) l0 == Line(s, h.qc)
      l == IF ms = <<>> THEN l0
           ELSE IF Len(ms) = 1 THEN Finish(s, Put(s, h.raw, l0, h.start, ms[1].m, quoting, FALSE), h.start, ms[1])
           ELSE LET c == CommonText(s, ms, h.raw) IN IF c = <<>> THEN l0 ELSE Put(s, h.raw, l0, h.start, c, quoting, QuoteCommon(s, ms, h.raw))
  IN Now(s, l, "complete", l.text # s.text)

\* Menu completion.  menu: list (first what was there, or what is common), idx
\* (0: that), start, qc, ms, over (nothing more to insert).
Size(m) == Len(m.list)
\* The next entry; -1 : none.
Advance(s, m, count) ==
  IF Size(m) = 0 THEN -1
  ELSE IF s.wrap = 0 /\ count < 0 /\ m.idx + count < 0 THEN -1
  ELSE IF s.wrap = 0 /\ count > 0 /\ m.idx + count >= Size(m) THEN -1
  ELSE (m.idx + count) % Size(m)
\* The first entry of the old kind is exactly what was there.
Show(s, m, idx) ==
  LET l0 == Line(s, m.qc) q == Quoting(s, m.ms)
      l1 == IF m.old /\ idx = 0 /\ Size(m) > 1 THEN [text |-> Take(s.text, m.start) \o m.list[1] \o After(s.text, s.pt), pt |-> m.start + Len(m.list[1]), qc |-> m.qc]
            ELSE Put(s, m.raw, l0, m.start, m.list[idx + 1], q, FALSE)
  IN IF idx = 0 /\ Size(m) > 1 THEN l1
     ELSE Finish(s, l1, m.start, IF Size(m) = 1 THEN m.ms[1] ELSE m.ms[idx])
Texts(ms) == <<>> \o [i \in 1..Len(ms) |-> ms[i].m]
Step1(s, m, idx, cmd) ==
  IF idx < 0 THEN [Now(s, Line(s, ""), cmd, FALSE) EXCEPT !.menu = m]
  ELSE LET l == Show(s, m, idx) IN [Now(s, l, cmd, FALSE) EXCEPT !.menu = [m EXCEPT !.idx = idx, !.qc = l.qc]]
OldMenu(s, count) ==
  IF s.last = "old" THEN
     LET m == s.menu IN Step1(s, m, IF Size(m) = 1 THEN -1 ELSE Advance(s, m, count), "old")
  ELSE LET h == Here(s) ms == Chosen(s, NoQuotes(h.raw))
           m == [list |-> IF Len(ms) > 1 THEN <<h.raw>> \o Texts(ms) ELSE Texts(ms), idx |-> 0, start |-> h.start, qc |-> h.qc, raw |-> h.raw, ms |-> ms, over |-> FALSE, old |-> TRUE]
       IN Step1(s, m, IF Len(ms) = 1 THEN 0 ELSE Advance(s, m, count), "old")
Menu(s, count) ==
  IF s.last = "menu" /\ ~s.menu.over THEN Step1(s, s.menu, Advance(s, s.menu, count), "menu")
  ELSE LET h == Here(s) ms == Chosen(s, NoQuotes(h.raw))
           c == IF Len(ms) > 1 THEN CommonText(s, ms, h.raw) ELSE <<>>
           m == [list |-> IF Len(ms) > 1 THEN <<c>> \o Texts(ms) ELSE Texts(ms), idx |-> 0, start |-> h.start, qc |-> h.qc, raw |-> h.raw, ms |-> ms, over |-> Len(ms) = 1, old |-> FALSE]
           \* What is common goes in first.
           l == IF c = <<>> THEN Line(s, h.qc) ELSE Put(s, h.raw, Line(s, h.qc), h.start, c, Quoting(s, ms), FALSE)
       IN IF Len(ms) < 2 THEN Step1(s, m, IF ms = <<>> THEN -1 ELSE 0, "menu")
          ELSE Step1([s EXCEPT !.text = l.text, !.pt = l.pt], [m EXCEPT !.qc = l.qc], Advance(s, m, count), "menu")

InsertAll(s) ==
  LET h == Here(s) ms == Chosen(s, NoQuotes(h.raw)) q == Quoting(s, ms)
      from == IF h.qc = Q THEN h.start - 1 ELSE h.start
      one(t) == (IF q /\ Needs(t) THEN <<Q>> \o t \o <<Q>> ELSE t) \o <<" ">>
      all == Flat([i \in 1..Len(ms) |-> one(ms[i].m)])
      l == IF ms = <<>> THEN Line(s, "") ELSE [text |-> Take(s.text, from) \o all \o After(s.text, s.pt), pt |-> from + Len(all), qc |-> ""]
  IN Now(s, l, "all", l.text # s.text)
Undo(s) == IF s.before = <<>> THEN s ELSE [s EXCEPT !.text = s.before[1].text, !.pt = s.before[1].pt, !.before = <<>>, !.last = "undo"]
Do(s, cmd) ==
  CASE cmd = "complete" -> Complete(s)
    [] cmd = "old-menu-complete" -> OldMenu(s, 1)
    [] cmd = "old-menu-complete-backward" -> OldMenu(s, -1)
    [] cmd = "menu-complete" -> Menu(s, 1)
    [] cmd = "menu-complete-backward" -> Menu(s, -1)
    [] cmd = "insert-completions" -> InsertAll(s)
    [] cmd = "undo" -> Undo(s)
Begin(mode, fold, wrap, append, sup, supq, force, mark) ==
  [o |-> [mode |-> mode, fuzzy |-> FALSE], fold |-> fold, wrap |-> wrap, append |-> append, sup |-> sup, supq |-> IF force = 1 THEN 0 ELSE supq, force |-> force, mark |-> mark,
   items |-> <<>>, text |-> <<>>, pt |-> 0, last |-> "", menu |-> [list |-> <<>>, idx |-> 0, start |-> 0, qc |-> "", raw |-> <<>>, ms |-> <<>>, over |-> FALSE, old |-> FALSE], before |-> <<>>]
NewLine(s, t, back) == [s EXCEPT !.text = t, !.pt = Max2(0, Len(t) - back), !.last = "", !.before = <<>>]
=============================================================================
