----------------------------- MODULE MCSuggest -----------------------------
(* All short lines typed, erased and accepted in whole or part, over small  *)
(* histories, completions and a script's suggestion, under all settings.    *)
EXTENDS Suggest
CONSTANTS MaxLen, Hists, Scripts
VARIABLES s, before, act
vars == <<s, before, act>>
AllHists == << <<>>, << Ch("ab a"), Ch("Ab") >>, << Ch("ab \"b a\" a"), Ch("b"), Ch("aB a") >>, << Ch("b"), Ch("a b"), Ch("b") >> >>
Rl(k, o, t) == [key |-> Ch(k), off |-> o, texts |-> <<Ch(t)>>]
AllScripts == << <<>>, << Rl("a ", 3, "b a") >>, << Rl("", 1, "a a\" b\" a") >>, << Rl("ab", 0, " B"), Rl("", 2, "B \"a") >> >>
Fresh0 == [caseless |-> 0, text |-> <<>>, pt |-> 0, sug |-> <<>>, for |-> <<>>, quiet |-> FALSE, ew |-> 0, num |-> 3, dupe |-> "add", inline |-> 1, words |-> {Ch("ab"), Ch("b a"), Ch("ba")}]
\* Where the last word begins: after the last blank outside quotes, or after a quote.
EndWord(t) == LET RECURSIVE go(_, _, _)
                  go(k, w, q) == IF k > Len(t) THEN [w |-> w, q |-> q]
                    ELSE IF t[k] = "\"" THEN go(k + 1, IF ~q /\ w = k - 1 THEN k ELSE w, ~q)
                    ELSE IF t[k] = " " /\ ~q THEN go(k + 1, k, q) ELSE go(k + 1, w, q)
              IN go(1, 0, FALSE)
Env(t) == LET x == EndWord(t) IN [ew |-> x.w, wo |-> x.w, q |-> IF x.q \/ (x.w > 0 /\ At(t, x.w) = "\"") THEN 1 ELSE 0]
Strategies == { <<"history", "completion">>, <<"completion", "A">>, <<"match_prev_cmd", "A", "history">>, <<"A">> }
Init == /\ \E o, c \in 0..1, h \in 1..Hists, r \in 1..Scripts, st \in Strategies :
             s = [orig |-> o, hist |-> AllHists[h], strategy |-> st, sugs |-> [A |-> [kind |-> "one", rules |-> AllScripts[r]]]] @@ [Fresh0 EXCEPT !.caseless = c]
        /\ before = Fresh0 /\ act = "none"
Then(a, c) == s' = Update(a, c, Env(a.text)).s
Edit(t, p, c) == act' = c /\ before' = s /\ Then([s EXCEPT !.text = t, !.pt = p], c)
Type == Len(s.text) < MaxLen /\ \E c \in {"a", "b", "B", " ", "\""} : s.pt = Len(s.text) /\ Edit(Append(s.text, c), Len(s.text) + 1, "type")
Erase == s.pt = Len(s.text) /\ s.text # <<>> /\ Edit(Take(s.text, Len(s.text) - 1), Len(s.text) - 1, "backward-delete-char")
Home == s.text # <<>> /\ s.pt = Len(s.text) /\ Edit(s.text, 0, "home")
End == s.pt < Len(s.text) /\ Edit(s.text, Len(s.text), "end")
Take1(how) == Len(s.text) < MaxLen + 2 /\ CanAccept(s) /\ act' = how /\ before' = s /\ Then(Accept(s, how), how)
Next == Type \/ Erase \/ Home \/ End \/ Take1("line") \/ Take1("word") \/ Take1("full")
Spec == Init /\ [][Next]_vars
\* -------- what must hold
\* What is shown goes on from the line, and only with the cursor at its end.
Extends == LET v == Shown(s) IN Take(v, Len(s.text)) = s.text /\ (s.pt < Len(s.text) => v = s.text)
Took == act \in {"line", "word", "full"}
Was == Shown(before)
\* Accepting gives what was shown (perhaps in other case): all of it, or its beginning, and something of it.
AsShown == Took => /\ Len(s.text) > Len(before.text)
                   /\ Begins(s, Was, s.text)
                   /\ (s.orig = 0 => Take(s.text, Len(before.text)) = before.text)
                   /\ (s.caseless = 0 => Take(Was, Len(s.text)) = s.text)
AllOfIt == act = "line" => Len(s.text) = Len(Was)
\* What is left of it is still shown; nothing is shown when all of it was taken.
StillThere == Took => IF Len(s.text) < Len(Was) THEN Same(s, Shown(s), Was) ELSE Shown(s) = s.text
\* A word ends at a word's end, and a full word at a blank.
WordEnds == act = "word" /\ Len(s.text) < Len(Was) => WordCh(s.text[Len(s.text)]) /\ ~WordCh(Was[Len(s.text) + 1])
FullEnds == act = "full" /\ Len(s.text) < Len(Was) => Was[Len(s.text) + 1] = " " /\ s.text[Len(s.text)] # " "
\* A suggestion is for the line there is.
Current == s.sug # <<>> => s.for = s.text /\ Agrees(s, s.sug[1], s.text)
Calm == s.quiet => s.sug = <<>> /\ s.for = s.text
\* The list offers no two suggestions that make the same line, history first, within its limit.
Listed == (act = "type" /\ ~Blank(s.text)) =>
  LET o == Offer(s, s.text, Env(s.text).wo) IN
  /\ Len(o) <= Limit
  /\ \A x, y \in DOMAIN o : x < y => Makes(o[x], s.text) # Makes(o[y], s.text)
  /\ \A x, y \in DOMAIN o : x < y /\ o[y].src = "history" => o[x].src = "history"
  /\ (o = <<>> <=> \A k \in DOMAIN s.strategy : AskAll(s, s.strategy[k], s.text, Env(s.text).wo) = <<>>)
=============================================================================
