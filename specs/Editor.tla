------------------------------- MODULE Editor -------------------------------
(* The input line as the user edits it: text, cursor, selection, mark, undo, *)
(* kill ring, clipboard and the history lines that can be edited in place.   *)
(* A command maps the editor's state to the set of states it may lead to.    *)
EXTENDS Chars
\* past: what undo can bring back, oldest first; k: how the text changed next ("typed": a typed
\* character, which may be undone together with the typed characters or the insertion ("insert")
\* just before it; "group": one step).  slots: the other lines, the
\* last one is the new line; slots[h] is stale while the line at h is being edited.
Slot(t) == [text |-> t, past |-> <<>>]
Fresh(lines, ring, clip) ==
  [text |-> <<>>, pt |-> 0, an |-> -1, mark |-> 0, past |-> <<>>, ring |-> ring, idx |-> Len(ring), kill |-> FALSE, last |-> "",
   clip |-> clip, slots |-> (<<>> \o [i \in 1..Len(lines) |-> Slot(lines[i])]) \o <<Slot(<<>>)>>, h |-> Len(lines) + 1, over |-> FALSE, done |-> <<>>,
   has |-> clip # <<>>, crlf |-> "crlf", queued |-> <<>>]
------------------------------------------------------------------------------
(* Characters and words. *)
ZeroWidth == {"u301"}
Extra == {"ue9", "uc9", "u4e2d", "u250", "u2c6f"} \* é É 中 ɐ Ɐ
WordSet == {AsciiSeq[i] : i \in 17..26} \cup {AsciiSeq[i] : i \in 34..59} \cup {AsciiSeq[i] : i \in 66..91} \cup Extra \cup ZeroWidth \* marks occur after letters only
IsWord(c) == c \in WordSet
IsBlank(c) == c \in {" ", "\t"}
IsSep(c) == c \in {"/", "\\"}
UpC(c) == IF c = "ue9" THEN "uc9" ELSE IF c = "u250" THEN "u2c6f" ELSE IF \E i \in 1..26 : LowerSeq[i] = c THEN UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c] ELSE c
LowC(c) == IF c = "uc9" THEN "ue9" ELSE IF c = "u2c6f" THEN "u250" ELSE Low(c)
\* Positions are between characters; a combining mark belongs to the character before it.
Boundary(t, p) == p \in 0..Len(t) /\ (p = Len(t) \/ t[p + 1] \notin ZeroWidth \/ p = 0)
Fwd1(t, p) == LET RECURSIVE go(_) go(q) == IF q < Len(t) /\ t[q + 1] \in ZeroWidth THEN go(q + 1) ELSE q IN IF p >= Len(t) THEN p ELSE go(p + 1)
Bwd1(t, p) == LET RECURSIVE go(_) go(q) == IF q > 0 /\ t[q + 1] \in ZeroWidth THEN go(q - 1) ELSE q IN IF p = 0 THEN 0 ELSE go(p - 1)
RECURSIVE Fwd(_, _, _), Bwd(_, _, _), FwdWord(_, _, _), BwdWord(_, _, _), FwdBig(_, _, _), BwdBig(_, _, _), Rub(_, _, _)
Fwd(t, p, n) == IF n = 0 THEN p ELSE Fwd(t, Fwd1(t, p), n - 1)
Bwd(t, p, n) == IF n = 0 THEN p ELSE Bwd(t, Bwd1(t, p), n - 1)
\* the first position >= p before a character that satisfies P, or the end
Until(t, p, P(_)) == Find(t, p + 1, P) - 1
\* the last position <= p after a character that satisfies P, or 0
Since(t, p, P(_)) == FindBack(t, p, P)
NotWord(c) == ~IsWord(c)
NotBlank(c) == ~IsBlank(c)
FwdWord(t, p, n) == IF n = 0 THEN p ELSE FwdWord(t, Until(t, Until(t, p, IsWord), NotWord), n - 1)
BwdWord(t, p, n) == IF n = 0 THEN p ELSE BwdWord(t, Since(t, Since(t, p, IsWord), NotWord), n - 1)
FwdBig(t, p, n) == IF n = 0 THEN p ELSE FwdBig(t, Until(t, Until(t, p, IsBlank), NotBlank), n - 1)
BwdBig(t, p, n) == IF n = 0 THEN p ELSE BwdBig(t, Since(t, Since(t, p, NotBlank), IsBlank), n - 1)
\* Back over one part of a path.
Rub(t, p, n) == IF n = 0 \/ p = 0 THEN p ELSE
  LET a == Since(t, p, NotBlank)                                \* blanks
      b == Since(t, a, LAMBDA c : ~IsSep(c))                    \* separators
      stop == a > 0 /\ IsSep(t[a]) /\ (b = 0 \/ IsBlank(t[b]))  \* nothing but separators
      c1 == Since(t, a, LAMBDA c : ~IsBlank(c) /\ ~IsSep(c))
      d == Since(t, c1, LAMBDA c : IsBlank(c) \/ IsSep(c))
  IN Rub(t, IF stop THEN b ELSE d, n - 1)
------------------------------------------------------------------------------
(* Changes. *)
Cut(t, a, b) == SubSeq(t, 1, a) \o SubSeq(t, b + 1, Len(t))
Ins(t, p, x) == SubSeq(t, 1, p) \o x \o SubSeq(t, p + 1, Len(t))
Lo(s) == Min2(s.an, s.pt)
Hi(s) == Max2(s.an, s.pt)
Clip0(p, t) == Min2(p, Len(t))
\* The text becomes t, the cursor p.
Edit(s, t, p, k) == [s EXCEPT !.text = t, !.pt = p, !.mark = Clip0(s.mark, t), !.past = Append(@, [t |-> s.text, k |-> k])]
Sel(s) == s.an >= 0 /\ s.an # s.pt
\* Deleting the selection (an empty one too).
DelSel(s) == [Edit(s, Cut(s.text, Lo(s), Hi(s)), Lo(s), "group") EXCEPT !.an = -1]
\* Nothing else happened: a command that is no kill, no yank and keeps no selection.
Over(s) == [s EXCEPT !.an = -1, !.kill = FALSE, !.last = ""]
KeepSel(s) == [s EXCEPT !.kill = FALSE, !.last = ""]
MaxRing == 10
\* Kill from one position to another; successive kills gather.
ToRing(s, x, ahead) ==
  IF s.kill /\ s.ring # <<>>
  THEN LET r == [s.ring EXCEPT ![Len(s.ring)] = IF ahead THEN @ \o x ELSE x \o @] IN [s EXCEPT !.ring = r, !.idx = Len(r)]
  ELSE LET r == Append(IF Len(s.ring) = MaxRing THEN Tail(s.ring) ELSE s.ring, x) IN [s EXCEPT !.ring = r, !.idx = Len(r)]
KillDir(s, from, to, ahead) ==
  IF from = to THEN [s EXCEPT !.kill = TRUE]
  ELSE LET a == Min2(from, to) b == Max2(from, to)
       IN [ToRing(Edit(s, Cut(s.text, a, b), a, "group"), SubSeq(s.text, a + 1, b), ahead) EXCEPT !.kill = TRUE]
Kill(s, from, to) == KillDir(s, from, to, from < to)
\* A kill command: from the cursor to position q; m: it sets the mark.
KillTo(s, q) == LET r == IF q = s.pt THEN [s EXCEPT !.kill = FALSE] ELSE Kill(s, s.pt, q) IN [r EXCEPT !.mark = r.pt, !.an = -1, !.last = ""]
\* The same where killing nothing still counts as a kill.
KillTo0(s, q) == [KillTo(s, q) EXCEPT !.kill = TRUE]
\* Inserting one character is like typing it.
InsKind(x) == IF Len(x) = 1 /\ x[1] \in AsciiSet \cup {"\t"} THEN "typed" ELSE "insert"
Type1(s, c) == LET s0 == IF s.an >= 0 THEN DelSel(s) ELSE s
                   s1 == Edit(s0, Ins(s0.text, s0.pt, <<c>>), s0.pt + 1, IF c \in AsciiSet THEN "typed" ELSE "insert")
               IN IF s.over /\ s0.pt < Len(s0.text) THEN Edit(s0, Ins(Cut(s0.text, s0.pt, Fwd1(s0.text, s0.pt)), s0.pt, <<c>>), s0.pt + 1, "group")
                  \* replacing the selection by a character is one change (one or two for characters beyond ASCII)
                  ELSE IF s.an >= 0 THEN [s1 EXCEPT !.past = IF c \in AsciiSet THEN Append(s.past, [t |-> s.text, k |-> "group"])
                                                            ELSE s.past \o <<[t |-> s.text, k |-> "insert"], [t |-> s0.text, k |-> "typed"]>>] ELSE s1
RECURSIVE TypeAll(_, _)
TypeAll(s, x) == IF x = <<>> THEN s ELSE TypeAll(Over(Type1(s, x[1])), Tail(x))
------------------------------------------------------------------------------
(* Undo. *)
TextAt(s, q) == IF q = Len(s.past) + 1 THEN s.text ELSE s.past[q].t
\* The number of past texts that may remain after one undo.
UndoTo(s) == LET n == Len(s.past)
                 real(i) == TextAt(s, i) # TextAt(s, i + 1)
             IN {q \in 1..n : LET R == {i \in q..n : real(i)}
                              IN \A i \in R : s.past[i].k = "typed" \/ ((\A j \in R : i <= j) /\ (s.past[i].k = "insert" \/ R = {i}))}
Back(s, q, p) == [s EXCEPT !.text = s.past[q].t, !.pt = p, !.mark = Clip0(@, s.past[q].t), !.past = SubSeq(@, 1, q - 1)]
Undone(s) == IF s.past = <<>> THEN {s}
             ELSE LET Q == UndoTo(s)
                      T == {s.past[q].t : q \in Q}
                  IN {LET q == CHOOSE x \in Q : s.past[x].t = t /\ \A y \in Q : s.past[y].t = t => y <= x
                      IN Back(s, q, Len(t)) : t \in T}
RECURSIVE UndoneN(_, _)
UndoneN(s, n) == IF n = 0 THEN {s} ELSE UNION {UndoneN(x, n - 1) : x \in Undone(s)}
Original(s) == IF s.past = <<>> THEN s.text ELSE s.past[1].t
------------------------------------------------------------------------------
(* History: the line being edited goes to its place, another one comes. *)
Stored(s) == [s.slots EXCEPT ![s.h] = [text |-> s.text, past |-> s.past]]
Goto(s, h) == LET S == Stored(s)
              IN [Over(s) EXCEPT !.slots = S, !.h = h, !.text = S[h].text, !.past = S[h].past, !.pt = Len(S[h].text), !.mark = 0]
Newest(s) == Len(s.slots)
\* Going back to the new line keeps the mark.
GotoNew(s) == IF s.h = Newest(s) THEN Over(s) ELSE [Goto(s, Newest(s)) EXCEPT !.mark = Clip0(s.mark, Stored(s)[Newest(s)].text)]
Accept(s) == LET S == IF s.h = Newest(s) THEN s.slots ELSE [Stored(s) EXCEPT ![s.h] = Slot(Original(s))]
             IN [Over(s) EXCEPT !.done = <<s.text>>, !.slots = [S EXCEPT ![Newest(s)] = Slot(<<>>)], !.h = Newest(s),
                                !.text = <<>>, !.pt = 0, !.mark = 0, !.past = <<>>, !.over = FALSE]
------------------------------------------------------------------------------
(* Case and order. *)
CaseWords(t, a, b, op) ==
  <<>> \o [i \in 1..Len(t) |->
    IF i <= a \/ i > b \/ NotWord(t[i]) THEN t[i]
    ELSE IF op = "up" \/ (op = "cap" /\ (i = a + 1 \/ NotWord(t[i - 1]))) THEN UpC(t[i]) ELSE LowC(t[i])]
ChangeCase(s, n, op) == LET q == FwdWord(s.text, s.pt, n)
                        IN IF q = s.pt THEN s ELSE Edit(s, CaseWords(s.text, s.pt, q, op), q, "group")
TransposeChars(s, n0) ==
  LET p0 == IF s.pt = Len(s.text) THEN Bwd1(s.text, s.pt) ELSE s.pt
      a == Bwd1(s.text, p0)
      q == Fwd(s.text, p0, IF s.pt = Len(s.text) THEN 1 ELSE n0)
      t == s.text
      r == SubSeq(t, 1, a) \o SubSeq(t, p0 + 1, q) \o SubSeq(t, a + 1, p0) \o SubSeq(t, q + 1, Len(t))
  IN Edit(s, r, q, "group")
TransposeWords(s, n) ==
  LET t == s.text
      e2 == FwdWord(t, s.pt, n)
      b2 == BwdWord(t, e2, 1)
      b1 == BwdWord(t, b2, n)
      e1 == FwdWord(t, b1, 1)
      r == SubSeq(t, 1, b1) \o SubSeq(t, b2 + 1, e2) \o SubSeq(t, e1 + 1, b2) \o SubSeq(t, b1 + 1, e1) \o SubSeq(t, e2 + 1, Len(t))
  IN IF b1 = b2 \/ b2 < e1 THEN s ELSE Edit(s, r, e2, "group")
SelectWord(s) ==
  LET t == s.text
      e == FwdWord(t, s.pt, 1) hm == BwdWord(t, e, 1)
      b == BwdWord(t, s.pt, 1) lm == FwdWord(t, b, 1)
  IN IF hm <= s.pt THEN [s EXCEPT !.an = hm, !.pt = e]
     ELSE IF lm > s.pt THEN [s EXCEPT !.an = b, !.pt = lm]
     ELSE [s EXCEPT !.an = lm, !.pt = hm]
------------------------------------------------------------------------------
(* The commands; n: the count, arg: it was given. *)
At_(s, p) == {Over([s EXCEPT !.pt = p])}
Cua(s, p) == {KeepSel([s EXCEPT !.an = IF @ < 0 THEN s.pt ELSE @, !.pt = p])}
\* Deletion commands take the selection, if there is one.
OrSel(s, r) == IF Sel(s) THEN {Over(DelSel(s))} ELSE r
Same(s) == {Over(s)}
DeleteFwd(s, n, arg) == IF s.pt = Len(s.text) THEN Same(s)
  ELSE IF arg THEN {[Kill(s, s.pt, Fwd(s.text, s.pt, n)) EXCEPT !.an = -1, !.last = ""]}
  ELSE {Over(Edit(s, Cut(s.text, s.pt, Fwd1(s.text, s.pt)), s.pt, "group"))}
DeleteBwd(s, n, arg) == IF s.pt = 0 THEN Same(s)
  ELSE IF arg THEN {[Kill(s, s.pt, Bwd(s.text, s.pt, n)) EXCEPT !.an = -1, !.last = ""]}
  ELSE {Over(Edit(s, Cut(s.text, Bwd1(s.text, s.pt), s.pt), Bwd1(s.text, s.pt), "group"))}
\* Moving by blank-separated words stops on a last word of one character, or goes past it;
\* it stops after a blank at the start of the line, or before it.
RECURSIVE FwdBigs(_, _, _)
FwdBigs(t, p, n) == IF n = 0 THEN {p}
  ELSE LET q == FwdBig(t, p, 1)
           Q == {q} \cup (IF q = Len(t) /\ Len(t) > 0 /\ (Len(t) = 1 \/ IsBlank(t[Len(t) - 1]) \/ p = Len(t) - 1) /\ p < Len(t) THEN {Len(t) - 1} ELSE {})
                    \cup (IF q = Len(t) - 1 /\ q >= p THEN {q} ELSE {})
       IN UNION {IF x = Len(t) - 1 THEN {x} \cup FwdBigs(t, x + 1, n - 1) ELSE FwdBigs(t, x, n - 1) : x \in Q}
BwdBigs(t, p, n) == LET q == BwdBig(t, p, n) IN {q} \cup (IF q = 1 /\ p > 1 /\ IsBlank(t[1]) THEN {0} ELSE {})
\* Pasted text: line breaks are removed, replaced, or run the lines they end (all but the first wait in the queue).
NL == "u0a"
CR == "u0d"
RECURSIVE Joined(_, _, _)
Joined(x, y, skip) == IF x = <<>> THEN <<>>
  ELSE IF x[1] \in {NL, CR} THEN (IF skip THEN <<>> ELSE y) \o Joined(Tail(x), y, TRUE) ELSE <<x[1]>> \o Joined(Tail(x), y, FALSE)
RECURSIVE LinesOf(_)
LinesOf(x) == LET e == Find(x, 1, LAMBDA c : c = NL) IN IF x = <<>> THEN <<>> ELSE <<Take(x, e)>> \o LinesOf(SubSeq(x, e + 1, Len(x)))
Waiting(y) == IF y[Len(y)] = NL THEN <<"r">> \o Take(y, Len(y) - 1) ELSE <<"e">> \o y
Paste(s) ==
  LET x == CASE s.crlf = "delete" -> Joined(s.clip, <<>>, FALSE) [] s.crlf = "space" -> Joined(s.clip, <<" ">>, FALSE)
             [] s.crlf = "ampersand" -> Joined(s.clip, <<"&">>, FALSE) [] OTHER -> SelectSeq(s.clip, LAMBDA c : c # CR)
      L == LinesOf(x)
      run == s.crlf = "crlf" /\ \E j \in 1..Len(x) : x[j] = NL
      first == IF run THEN SelectSeq(L[1], LAMBDA c : c # NL) ELSE x
      d == IF s.an >= 0 THEN DelSel(s) ELSE s
      r == Over([[Edit(d, Ins(d.text, d.pt, first), d.pt + Len(first), "group") EXCEPT !.past = Append(s.past, [t |-> s.text, k |-> IF s.an >= 0 THEN "group" ELSE InsKind(first)])] EXCEPT !.mark = d.pt])
  IN IF run THEN [Accept(r) EXCEPT !.queued = [j \in 1..(Len(L) - 1) |-> Waiting(L[j + 1])]] ELSE r
CmdNames == {"forward-char", "backward-char", "beginning-of-line", "end-of-line", "forward-word", "backward-word",
  "cua-forward-char", "cua-backward-char", "cua-forward-word", "cua-backward-word", "cua-forward-bigword", "cua-backward-bigword",
  "cua-beg-of-line", "cua-end-of-line", "cua-select-all", "cua-select-word", "cua-copy", "cua-cut", "clink-paste", "clink-copy-line",
  "delete-char", "backward-delete-char", "forward-backward-delete-char", "delete-horizontal-space", "kill-line", "backward-kill-line",
  "unix-line-discard", "kill-whole-line", "kill-word", "backward-kill-word", "unix-word-rubout", "unix-filename-rubout", "kill-region",
  "copy-region-as-kill", "yank", "yank-pop", "set-mark", "exchange-point-and-mark", "upcase-word", "downcase-word", "capitalize-word",
  "transpose-chars", "transpose-words", "undo", "revert-line", "overwrite-mode", "previous-history", "next-history", "beginning-of-history",
  "end-of-history", "clink-reset-line", "clink-insert-dot-dot", "accept-line"}
Do(s, c, n, arg) ==
  LET t == s.text
      p == s.pt
  IN CASE c = "forward-char" -> At_(s, Fwd(t, p, n))
     [] c = "backward-char" -> At_(s, Bwd(t, p, n))
     [] c = "beginning-of-line" -> At_(s, 0)
     [] c = "end-of-line" -> At_(s, Len(t))
     [] c = "forward-word" -> At_(s, FwdWord(t, p, n))
     [] c = "backward-word" -> At_(s, BwdWord(t, p, n))
     [] c = "cua-forward-char" -> Cua(s, Fwd(t, p, n))
     [] c = "cua-backward-char" -> Cua(s, Bwd(t, p, n))
     [] c = "cua-forward-word" -> Cua(s, FwdWord(t, p, n))
     [] c = "cua-backward-word" -> Cua(s, BwdWord(t, p, n))
     [] c = "cua-forward-bigword" -> UNION {Cua(s, q) : q \in FwdBigs(t, p, n)}
     [] c = "cua-backward-bigword" -> UNION {Cua(s, q) : q \in BwdBigs(t, p, n)}
     [] c = "cua-beg-of-line" -> Cua(s, 0)
     [] c = "cua-end-of-line" -> Cua(s, Len(t))
     [] c = "cua-select-all" -> {KeepSel([s EXCEPT !.an = 0, !.pt = Len(t)])}
     [] c = "cua-select-word" -> {KeepSel(SelectWord(s))}
     [] c = "cua-copy" -> LET x == IF s.an >= 0 THEN SubSeq(t, Lo(s) + 1, Hi(s)) ELSE t IN {KeepSel(IF x = <<>> THEN s ELSE [s EXCEPT !.clip = x, !.has = TRUE])}
     [] c = "cua-cut" -> LET x == IF s.an >= 0 THEN SubSeq(t, Lo(s) + 1, Hi(s)) ELSE t
                             r == IF x = <<>> THEN s ELSE [s EXCEPT !.clip = x, !.has = TRUE]
                         IN {KeepSel(IF s.an >= 0 THEN DelSel(r) ELSE r)}
     [] c = "clink-copy-line" -> {Over([s EXCEPT !.clip = t, !.has = TRUE])}
     [] c = "clink-paste" -> {IF s.has THEN Paste(s) ELSE Over(s)}
     [] c = "delete-char" -> OrSel(s, DeleteFwd(s, n, arg))
     [] c = "backward-delete-char" -> OrSel(s, DeleteBwd(s, n, arg))
     [] c = "forward-backward-delete-char" -> OrSel(s, IF p = Len(t) THEN DeleteBwd(s, n, arg) ELSE DeleteFwd(s, n, arg))
     [] c = "delete-horizontal-space" -> LET a == Since(t, p, NotBlank) b == Until(t, p, NotBlank)
                                         IN {Over(IF a = b THEN s ELSE Edit(s, Cut(t, a, b), a, "group"))}
     [] c = "kill-line" -> {KillTo(s, Len(t))}
     [] c = "backward-kill-line" -> IF p = 0 THEN Same(s) ELSE {KillTo(s, 0)}
     [] c = "unix-line-discard" -> IF p = 0 THEN Same(s) ELSE {KillTo(s, 0)}
     [] c = "kill-whole-line" -> LET r == IF t = <<>> THEN [Edit(s, t, 0, "group") EXCEPT !.kill = TRUE] ELSE Kill([s EXCEPT !.pt = 0], 0, Len(t)) IN {[r EXCEPT !.mark = 0, !.an = -1, !.last = ""]}
     [] c = "kill-word" -> OrSel(s, {KillTo(s, FwdWord(t, p, n))})
     [] c = "backward-kill-word" -> OrSel(s, {KillTo(s, BwdWord(t, p, n))})
     [] c = "unix-word-rubout" -> IF p = 0 THEN Same(s) ELSE {KillTo0(s, BwdBig(t, p, n))}
     [] c = "unix-filename-rubout" -> IF p = 0 THEN Same(s) ELSE {KillTo0(s, Rub(t, p, n))}
     \* Which end of the gathered text a region goes to is unspecified.
     [] c = "kill-region" -> {[KillDir(s, p, s.mark, x) EXCEPT !.an = -1, !.last = ""] : x \in BOOLEAN}
     [] c = "copy-region-as-kill" -> LET y == SubSeq(t, Min2(p, s.mark) + 1, Max2(p, s.mark))
                                     IN {[(IF y = <<>> THEN s ELSE ToRing(s, y, x)) EXCEPT !.kill = TRUE, !.an = -1, !.last = ""] : x \in BOOLEAN}
     [] c = "yank" -> IF s.ring = <<>> THEN Same(s)
                      ELSE LET x == s.ring[s.idx] IN {[Over(Edit(s, Ins(t, p, x), p + Len(x), InsKind(x))) EXCEPT !.mark = p, !.last = "yank"]}
     [] c = "yank-pop" ->
          LET x == s.ring[s.idx] a == p - Len(x)
              j == IF s.idx = 1 THEN Len(s.ring) ELSE s.idx - 1
              d == Edit(s, Cut(t, a, p), a, "group")
          IN IF s.last = "yank" /\ s.ring # <<>>
             THEN {[Over(Edit(d, Ins(d.text, a, s.ring[j]), a + Len(s.ring[j]), InsKind(s.ring[j]))) EXCEPT !.mark = a, !.last = "yank", !.idx = j]}
             ELSE {Over(s), [Over(s) EXCEPT !.kill = s.kill]} \* a command that failed may count as none
     [] c = "set-mark" -> {Over([s EXCEPT !.mark = p])}
     [] c = "exchange-point-and-mark" -> {Over([s EXCEPT !.mark = p, !.pt = s.mark])}
     [] c = "upcase-word" -> {Over(ChangeCase(s, n, "up"))}
     [] c = "downcase-word" -> {Over(ChangeCase(s, n, "down"))}
     [] c = "capitalize-word" -> {Over(ChangeCase(s, n, "cap"))}
     [] c = "transpose-chars" -> IF p = 0 \/ Len(t) < 2 THEN Same(s) \cup (IF p = 0 THEN {} ELSE {Over(Edit(s, t, p, "group"))}) ELSE {Over(TransposeChars(s, n))}
     [] c = "transpose-words" -> {Over(TransposeWords(s, n))}
     [] c = "undo" -> {Over(x) : x \in UndoneN(s, n)}
     [] c = "revert-line" -> {Over(IF s.past = <<>> THEN s ELSE Back(s, 1, Len(s.past[1].t)))}
     [] c = "overwrite-mode" -> {Over([s EXCEPT !.over = IF arg THEN n > 0 ELSE ~@])}
     [] c = "previous-history" -> IF s.h = 1 \/ n = 0 THEN Same(s) ELSE {Goto(s, Max2(1, s.h - n))}
     [] c = "beginning-of-history" -> IF s.h = 1 THEN Same(s) ELSE {Goto(s, 1)}
     [] c = "next-history" -> IF n = 0 THEN Same(s) ELSE IF s.h + n < Newest(s) THEN {Goto(s, s.h + n)} ELSE {GotoNew(s)}
     [] c = "end-of-history" -> {GotoNew(s)}
     [] c = "clink-reset-line" -> LET g == GotoNew(s) IN {Edit(g, <<>>, 0, "group")}
     [] c = "clink-insert-dot-dot" -> LET x == IF p > 0 /\ t[p] # " " /\ ~IsSep(t[p]) THEN <<"\\", ".", ".", "\\">> ELSE <<".", ".", "\\">>
                                      IN {Over(Edit(s, Ins(t, p, x), p + Len(x), "insert"))}
     [] c = "accept-line" -> {Accept(s)}
     [] OTHER -> {}
\* One step of the user: type characters, or run a command.
Typed(s, x) == [TypeAll([s EXCEPT !.done = <<>>, !.queued = <<>>], x) EXCEPT !.kill = FALSE, !.last = "", !.an = -1]
Run(s, c, n, arg) == Do([s EXCEPT !.done = <<>>, !.queued = <<>>], c, n, arg)
\* Always true of the editor.
WellFormed(s) == /\ s.pt \in 0..Len(s.text) /\ s.an \in -1..Len(s.text) /\ s.mark \in 0..Len(s.text)
                 /\ s.idx <= Len(s.ring) /\ Len(s.ring) <= MaxRing /\ s.h \in 1..Len(s.slots)
=============================================================================
