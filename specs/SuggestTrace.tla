---------------------------- MODULE SuggestTrace ----------------------------
EXTENDS Suggest, TraceLib
VARIABLES i, s
NoSug == [x \in {} |-> <<>>]
Init0 == [orig |-> 0, caseless |-> 0, inline |-> 0, dupe |-> "add", num |-> 3, strategy |-> <<>>, hist |-> <<>>, words |-> {}, sugs |-> NoSug,
          text |-> <<>>, pt |-> 0, sug |-> <<>>, for |-> <<>>, quiet |-> FALSE, ew |-> 0]
Texts(t) == LET p == Split(Ch(t), {"|"}) IN IF p = <<>> THEN <<<<>>>> ELSE p
How(c) == CASE c \in {"forward-char", "end-of-line", "clink-insert-suggested-line"} -> "line"
            [] c \in {"forward-word", "clink-insert-suggested-word"} -> "word"
            [] c = "clink-insert-suggested-full-word" -> "full"
            [] OTHER -> ""
Off(o) == IF o < 0 THEN 0 ELSE o + 1
Step(k, e) ==
  CASE e.op = "reset" -> s' = [Init0 EXCEPT !.orig = e.orig, !.caseless = e.caseless, !.inline = e.inline, !.dupe = e.dupe, !.num = e.num,
                                !.strategy = LET n == Split(Ch(e.strategy), {" "}) IN [x \in DOMAIN n |-> Str(n[x])]]
    [] e.op = "hist" -> s' = [s EXCEPT !.hist = Append(@, Ch(e.t))]
    [] e.op = "word" -> s' = [s EXCEPT !.words = @ \union {Ch(e.t)}]
    [] e.op = "suggester" -> s' = [s EXCEPT !.sugs = (e.name :> [kind |-> e.kind, rules |-> <<>>]) @@ @]
    [] e.op = "rule" -> s' = [s EXCEPT !.sugs[e.name].rules = Append(@, [key |-> Ch(e.key), off |-> e.offset, texts |-> Texts(e.texts)])]
    [] e.op = "list" -> s' = s /\ \E o \in {Offer(s, Ch(e.line), e.ew - 1)} :
         Match("list", k, e.out, [x \in DOMAIN o |-> Str(o[x].t) \o "\t" \o Str(NatText(Off(o[x].o))) \o "\t" \o o[x].src \o "\t" \o Str(NatText(o[x].h))])
    [] OTHER ->
         LET c == IF e.op = "key" THEN "" ELSE e.c
             how == How(c)
             \* A key typed ahead is on the line, but no suggestion was looked for.
             b == IF e.op = "quick" THEN [s EXCEPT !.text = Take(s.text, s.pt) \o Ch(e.k) \o SubSeq(s.text, s.pt + 1, Len(s.text)), !.pt = @ + 1] ELSE s
             acc == how # "" /\ CanAccept(b)
             same == [b EXCEPT !.text = Ch(e.text), !.pt = e.pt]
             \* (A suggestion for an earlier line, of which nothing is left, may be accepted.)
             past == how # "" /\ Visible(b) /\ b.for # b.text
         IN \E a \in (IF acc THEN {Accept(b, how)} ELSE {same} \union IF past THEN {Quiet(same)} ELSE {}) :
            /\ (acc => Match("line", k, <<e.text, e.pt>>, <<Str(a.text), a.pt>>))
            /\ ((how # "" /\ ~acc) => IF past THEN Match("kept", k, Str(Lower(Ch(e.text))), Str(Lower(b.text))) ELSE Match("kept", k, e.text, Str(b.text)))
            /\ \E u \in {Update(a, c, e)} :
               /\ s' = u.s
               /\ Match("asked", k, e.asked, IF u.asked THEN 1 ELSE 0)
               /\ Match("calls", k, e.calls, u.call)
               /\ Match("shown", k, e.seen, Str(Shown(u.s)))
Spec == i = 1 /\ s = Init0 /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Step(i, Trace[i])]_<<i, s>>
=============================================================================
