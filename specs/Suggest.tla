------------------------------ MODULE Suggest ------------------------------
(* Suggestions: what is suggested for a line, what of it is shown, and what *)
(* accepting it (or the next word of it) makes of the line.                 *)
EXTENDS Chars
\* A state s: orig, caseless, inline, dupe, num: settings; strategy: names;
\* hist, words: texts; sugs: name -> [kind, rules], rules of [key, off, texts];
\* text, pt: the line; sug: <<>> or one [t, o] (text, where on the line it begins,
\* from 0); for: the line it was looked for; quiet: nothing until the line
\* changes; ew: where the last word begins.
Same(s, a, b) == IF s.caseless = 1 THEN Lower(a) = Lower(b) ELSE a = b
Begins(s, t, a) == Len(t) >= Len(a) /\ Same(s, SubSeq(t, 1, Len(a)), a)
Blank(t) == \A k \in DOMAIN t : t[k] \in {" ", "\t"}
Ent(t, o) == [t |-> t, o |-> o, h |-> 0]
\* ---------------------------------------------------------------- suggesters
\* Entries of the history that go on where the line ends, latest first.
Longer(s, line, i) == Len(s.hist[i]) > Len(line) /\ Begins(s, s.hist[i], line)
After(s, i) == i > 1 /\ Same(s, s.hist[i - 1], s.hist[Len(s.hist)])
RECURSIVE Down(_, _, _)
Down(i, n, S) == IF i = 0 \/ n = 0 THEN <<>> ELSE IF i \in S THEN <<i>> \o Down(i - 1, n - 1, S) ELSE Down(i - 1, n, S)
Entries(s, is) == <<>> \o [k \in DOMAIN is |-> [t |-> s.hist[is[k]], o |-> 0, h |-> is[k]]]
FromHistory(s, line, n) == Entries(s, Down(Len(s.hist), n, {i \in DOMAIN s.hist : Longer(s, line, i)}))
FromNext(s, line, n) == IF s.dupe # "add" THEN <<>> ELSE Entries(s, Down(Len(s.hist), n, {i \in DOMAIN s.hist : Longer(s, line, i) /\ After(s, i)}))
Holds(s, t, a) == \E k \in 1..Len(t) : Begins(s, SubSeq(t, k, Len(t)), a)
FromInside(s, line, n) == Entries(s, Down(Len(s.hist), n, {i \in DOMAIN s.hist : Holds(s, s.hist[i], line)}))
\* Completions of the last word, which begins at wo: not what is typed already; only
\* in a list are quotes added to those that need them.
Needy(t) == \E k \in DOMAIN t : t[k] \in {" ", "&"}
Completions(s, line, wo, quoted, list) ==
  LET typed == SubSeq(line, wo + 1, Len(line))
      bare == SelectSeq(typed, LAMBDA c : c # "\"") \* (what is quoted is looked for without the quotes)
      ok == {w \in s.words : Begins(s, w, IF list THEN typed ELSE bare) /\ w # typed /\ (list \/ quoted \/ ~Needy(w))}
      one(w) == LET add == list /\ ~quoted /\ Needy(w) IN Ent((IF add THEN <<"\"">> ELSE <<>>) \o w \o (IF add \/ quoted THEN <<"\"">> ELSE <<>>) \o <<" ">>, wo)
      r == SortTexts(ok)
  IN IF Len(line) <= wo THEN <<>> ELSE <<>> \o [k \in DOMAIN r |-> one(r[k])]
\* Those of scripts: the first rule whose key begins the line.
Rule(s, name, line) == LET r == s.sugs[name].rules  S == {k \in DOMAIN r : Len(r[k].key) <= Len(line) /\ SubSeq(line, 1, Len(r[k].key)) = r[k].key}
  IN IF S = {} THEN <<>> ELSE <<r[CHOOSE k \in S : \A m \in S : k <= m]>>
\* (A suggestion with no place is to be added at the end of the line.)
Given(s, name, line) == LET r == Rule(s, name, line) IN
  IF r = <<>> THEN <<>> ELSE LET x == r[1]  n == IF s.sugs[name].kind = "many" THEN Len(x.texts) ELSE 1 IN
    <<>> \o [k \in 1..n |-> Ent(x.texts[k], x.off - 1)]
Place(e, line) == IF e.o < 0 \/ e.o > Len(line) THEN Len(line) ELSE e.o
Ask(s, name, line, wo, quoted) ==
  CASE name = "history" -> FromHistory(s, line, 1)
    [] name = "match_prev_cmd" -> FromNext(s, line, 1)
    [] name = "completion" -> Completions(s, line, wo, quoted, FALSE)
    [] name \in DOMAIN s.sugs -> Given(s, name, line)
    [] OTHER -> <<>>
Once(names) == LET RECURSIVE go(_, _)
                   go(k, seen) == IF k > Len(names) THEN <<>> ELSE IF names[k] \in seen THEN go(k + 1, seen) ELSE <<names[k]>> \o go(k + 1, seen \union {names[k]})
               IN go(1, {})
Fails(s, name) == name \in DOMAIN s.sugs /\ s.sugs[name].kind = "error"
\* In the order of the strategy, until one has something: [call, sug, fail].
Look(s, line, wo, quoted) ==
  LET RECURSIVE go(_, _)
      go(names, call) == IF names = <<>> THEN [call |-> call, sug |-> <<>>, fail |-> FALSE]
        ELSE LET n == names[1]  r == Ask(s, n, line, wo, quoted)  c == IF n \in DOMAIN s.sugs THEN Append(call, n) ELSE call IN
          IF Fails(s, n) THEN [call |-> c, sug |-> <<>>, fail |-> TRUE]
          ELSE IF r # <<>> THEN [call |-> c, sug |-> <<[t |-> r[1].t, o |-> Place(r[1], line)]>>, fail |-> FALSE]
          ELSE go(Tail(names), c)
  IN go(Once(s.strategy), <<>>)
\* ---------------------------------------------------------------- the editor
\* A suggestion counts only while it agrees with the line.
Agrees(s, g, text) == g.o <= Len(text) /\ Begins(s, g.t, SubSeq(text, g.o + 1, Len(text)))
Rest(g, text) == SubSeq(g.t, Len(text) - g.o + 1, Len(g.t))
Visible(s) == s.inline = 1 /\ s.sug # <<>> /\ s.pt = Len(s.text) /\ Agrees(s, s.sug[1], s.text)
Shown(s) == IF Visible(s) THEN s.text \o Rest(s.sug[1], s.text) ELSE s.text
CanAccept(s) == Visible(s) /\ Rest(s.sug[1], s.text) # <<>>
Quiet(s) == [s EXCEPT !.sug = <<>>, !.for = s.text, !.quiet = TRUE]
Put(s, t) == [s EXCEPT !.text = t, !.pt = Len(t)]
\* The whole line as the suggestion has it.
WordCh(c) == c \in UpperSet \/ c \in {LowerSeq[k] : k \in 1..26} \/ c \in Digits
Whole(s) ==
  LET g == s.sug[1]  len == Len(s.text)  from == Max2(s.ew, g.o) IN
  IF s.orig = 1 THEN SubSeq(s.text, 1, from) \o SubSeq(g.t, from - g.o + 1, Len(g.t)) ELSE s.text \o Rest(g, s.text)
AcceptLine(s) == LET g == s.sug[1] IN Quiet(Put(s, IF s.orig = 1 /\ g.o = 0 THEN g.t ELSE Whole(s)))
\* To the end of the next word: of letters and digits, or up to a blank outside quotes.
WordEnd(w, len) == LET a == Find(w, len + 1, WordCh) IN Find(w, a, LAMBDA c : ~WordCh(c)) - 1
Odd(n) == n % 2 = 1
FullEnd(s, w, len) ==
  LET g == s.sug[1]  from == Max2(s.ew, g.o)
      q0 == Odd(Cardinality({k \in (from + 1)..len : s.text[k] = "\""}) + (IF s.ew > 0 /\ At(s.text, s.ew) = "\"" THEN 1 ELSE 0))
      a == Find(w, len + 1, LAMBDA c : c \notin {" ", "\t"})
      RECURSIVE go(_, _)
      go(k, q) == IF k > Len(w) THEN Len(w) ELSE IF w[k] = "\"" THEN go(k + 1, ~q) ELSE IF ~q /\ w[k] \in {" ", "\t"} THEN k - 1 ELSE go(k + 1, q)
  IN go(a, q0)
AcceptPart(s, how) ==
  LET w == Whole(s)  len == Len(s.text)  e == IF how = "word" THEN WordEnd(w, len) ELSE FullEnd(s, w, len) IN
  IF e >= Len(w) THEN Quiet(Put(s, w)) ELSE [Put(s, SubSeq(w, 1, e)) EXCEPT !.for = SubSeq(w, 1, e)]
Accept(s, how) == IF how = "line" THEN AcceptLine(s) ELSE AcceptPart(s, how)
\* The line is now text with the cursor at pt: look for a suggestion?
None(s) == [s EXCEPT !.sug = <<>>, !.for = <<>>, !.quiet = FALSE]
Rubouts == {"backward-delete-char", "backward-kill-word", "backward-kill-line"}
\* e: ew, wo, q as the line's words are.  Gives [s, asked, call].
Update(s0, cmd, e) ==
  LET s == s0
      changed == s.for # s.text
      no(x) == [s |-> x, asked |-> FALSE, call |-> <<>>]
  IN IF s.pt < Len(s.text) THEN no(None(s))
     ELSE IF s.quiet /\ cmd \in Rubouts THEN no(Quiet(s))
     ELSE IF s.quiet /\ ~changed THEN no(s)
     ELSE LET a == [(IF s.quiet THEN None(s) ELSE s) EXCEPT !.ew = e.ew] IN
       IF ~changed THEN no(a)
       ELSE IF Blank(s.text) THEN [s |-> None(a), asked |-> TRUE, call |-> <<>>]
       ELSE LET r == Look(a, s.text, e.wo, e.q = 1) IN
         [asked |-> TRUE, call |-> r.call, s |->
           IF r.fail THEN a
           ELSE IF r.sug = <<>> \/ ~Agrees(a, r.sug[1], s.text) THEN [None(a) EXCEPT !.for = s.text]
           ELSE [a EXCEPT !.sug = r.sug, !.for = s.text, !.ew = e.wo]]
\* ------------------------------------------------------------------ the list
Limit == 30
Front(names) == IF \E k \in DOMAIN names : names[k] = "history"
  THEN LET k == CHOOSE k \in DOMAIN names : names[k] = "history" /\ \A m \in 1..(k - 1) : names[m] # "history"
       IN <<"history">> \o SubSeq(names, 1, k - 1) \o SubSeq(names, k + 1, Len(names))
  ELSE names
AskAll(s, name, line, wo) ==
  CASE name = "history" -> LET a == FromHistory(s, line, 10) IN IF a # <<>> THEN a ELSE FromInside(s, line, 10)
    [] name = "match_prev_cmd" -> FromNext(s, line, 10)
    [] name = "completion" -> Take(Completions(s, line, wo, FALSE, TRUE), Limit)
    [] name \in DOMAIN s.sugs -> Given(s, name, line)
    [] OTHER -> <<>>
\* Two suggestions are the same if they make the same line, blanks at its end apart.
Makes(e, line) == TrimR((IF e.o < 0 THEN line ELSE Take(line, e.o)) \o e.t, Spaces)
RECURSIVE Fresh(_, _, _, _)      \* those of es that make something new: at most n
Fresh(es, line, seen, n) == IF es = <<>> \/ n = 0 THEN <<>>
  ELSE LET m == Makes(es[1], line) IN IF m \in seen THEN Fresh(Tail(es), line, seen, n) ELSE <<es[1]>> \o Fresh(Tail(es), line, seen \union {m}, n - 1)
All(es, line) == {Makes(es[k], line) : k \in DOMAIN es}
RECURSIVE Others(_, _, _)
Others(rs, line, seen) == IF rs = <<>> THEN <<>>
  ELSE LET f == Fresh(Take(rs[1], Limit), line, seen, Limit) IN (IF f = <<>> THEN <<>> ELSE <<f>>) \o Others(Tail(rs), line, seen \union All(f, line))
\* Taken one from each in turn while there is room.
RECURSIVE Deal(_, _, _)
Deal(us, keep, room) ==
  LET S == {k \in DOMAIN us : keep[k] < Len(us[k])}
      least == CHOOSE k \in S : \A m \in S : keep[k] < keep[m] \/ (keep[k] = keep[m] /\ k <= m)
  IN IF room = 0 \/ S = {} THEN keep ELSE Deal(us, [keep EXCEPT ![least] = @ + 1], room - 1)
Offer(s, line, wo) ==
  LET names == Once(Front(s.strategy))
      all == [k \in DOMAIN names |-> LET r == AskAll(s, names[k], line, wo) IN <<>> \o [m \in DOMAIN r |-> [t |-> r[m].t, o |-> r[m].o, h |-> r[m].h, src |-> names[k]]]]
      rs == SelectSeq(<<>> \o all, LAMBDA r : r # <<>>)
      first == rs # <<>> /\ rs[1][1].src = "history"
      num == IF s.num < 1 THEN 1 ELSE IF s.num > 8 THEN 8 ELSE s.num
      few == Fresh(rs[1], line, {}, num)
      new == \E k \in 2..Len(rs) : \E m \in DOMAIN rs[k] : m <= Limit /\ Makes(rs[k][m], line) \notin All(few, line)
      h == IF ~first THEN <<>> ELSE IF new THEN few ELSE Fresh(rs[1], line, {}, Limit)
      us == Others(IF first THEN Tail(rs) ELSE rs, line, All(h, line))
      keep == Deal(us, [k \in DOMAIN us |-> 0], Limit - Len(h))
  IN IF \E k \in DOMAIN names : Fails(s, names[k]) THEN <<>>
     ELSE h \o Flat([k \in DOMAIN us |-> Take(us[k], keep[k])])
=============================================================================
