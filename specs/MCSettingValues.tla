-------------------------- MODULE MCSettingValues --------------------------
(* Round trips of typed values, on all sequences of up to MaxLen words.     *)
EXTENDS Settings, TLC
CONSTANTS MaxLen, Words
VARIABLES w, sgr
W(s) == Ch(s)
WordsQ == {W("bold"), W("bright"), W("on"), W("default"), W("red"), W("#1aF"), W("underline"), W("reverse"), W("nobold")}
WordsT == WordsQ \cup {W("italic"), W("nou"), W("WHIte"), W("#abcdef")}
Codes == {W("0"), W("1"), W("22"), W("31"), W("97"), W("49"), W("39"), W("38"), W("2"), W("100")}
Init == w = <<>> /\ sgr \in BOOLEAN
Next == Len(w) < MaxLen /\ (\E x \in IF sgr THEN Codes ELSE Words : w' = Append(w, x)) /\ UNCHANGED sgr
Spec == Init /\ [][Next]_<<w, sgr>>
JoinBy(ws, d) == LET RECURSIVE go(_) go(k) == IF k > Len(ws) THEN <<>> ELSE (IF k > 1 THEN <<d>> ELSE <<>>) \o ws[k] \o go(k + 1) IN go(1)
Text == IF sgr THEN T_sgr_ \o JoinBy(w, ";") ELSE JoinBy(w, " ")

(* The meaning of a code, as a terminal shows it: attributes and colours.  *)
Show0 == [bold |-> FALSE, rev |-> FALSE, it |-> FALSE, ul |-> FALSE, fg |-> <<>>, bg |-> <<>>, odd |-> FALSE]
Shown(code) ==
  LET toks == Split(code, {";"})
      RECURSIVE go(_, _)
      go(k, s) == IF k > Len(toks) THEN s ELSE LET x == Num(toks[k]) IN
        IF x \in {38, 48} THEN
          IF k + 4 <= Len(toks) /\ Num(toks[k + 1]) = 2
          THEN go(k + 5, IF x = 38 THEN [s EXCEPT !.fg = SubSeq(toks, k + 1, k + 4)] ELSE [s EXCEPT !.bg = SubSeq(toks, k + 1, k + 4)])
          ELSE [s EXCEPT !.odd = TRUE]
        ELSE go(k + 1, CASE x = 0 -> Show0 [] x = 1 -> [s EXCEPT !.bold = TRUE] [] x = 22 -> [s EXCEPT !.bold = FALSE] [] x = 3 -> [s EXCEPT !.it = TRUE]
                 [] x = 4 -> [s EXCEPT !.ul = TRUE] [] x = 7 -> [s EXCEPT !.rev = TRUE] [] x = 39 -> [s EXCEPT !.fg = <<>>] [] x = 49 -> [s EXCEPT !.bg = <<>>]
                 [] x \in 30..37 \cup 90..97 -> [s EXCEPT !.fg = <<toks[k]>>] [] x \in 40..47 \cup 100..107 -> [s EXCEPT !.bg = <<toks[k]>>] [] OTHER -> [s EXCEPT !.odd = TRUE])
  IN go(1, Show0)
P == ParseColor(Text)
\* Accepted text, formatted and read again, is the same colour.
RoundTrip == P.ok => \A compat \in BOOLEAN : \E q \in {ParseColor(FormatColor(P.val, compat))} : q.ok /\ Shown(q.val) = Shown(P.val)
\* What words say is what the terminal shows.
Has(x) == \E i \in 1..Len(w) : Lower(w[i]) = W(x)
Meaning == (~sgr /\ P.ok /\ w # <<>>) => \E s \in {Shown(P.val)} :
  /\ ~s.odd /\ s.bold = Has("bold") /\ s.rev = Has("reverse") /\ s.ul = Has("underline") /\ s.it = Has("italic")
  /\ LET on == IF Has("on") THEN CHOOSE i \in 1..Len(w) : w[i] = W("on") ELSE Len(w) + 1
         colour(a, b) == {i \in a..b : w[i] \in {W("red"), W("WHIte"), W("#1aF"), W("#abcdef")}}
         bright(a, b) == \E i \in a..b : w[i] = W("bright")
         want(a, b, base) == IF colour(a, b) = {} THEN <<>> ELSE LET x == w[CHOOSE i \in colour(a, b) : TRUE] IN
             CASE x = W("red") -> <<IntText(base + 1 + (IF bright(a, b) THEN 60 ELSE 0))>> [] x = W("WHIte") -> <<IntText(base + 7 + (IF bright(a, b) THEN 60 ELSE 0))>>
               [] x = W("#1aF") -> <<W("2"), W("17"), W("170"), W("255")>> [] OTHER -> <<W("2"), W("171"), W("205"), W("239")>>
     IN s.fg = want(1, on - 1, 30) /\ s.bg = want(on + 1, Len(w), 40)
\* One colour a side.
OneEach == (~sgr /\ P.ok) => Cardinality({i \in 1..Len(w) : w[i] = W("red")}) <= 2
\* Other types: their formatted value is read back as itself.
Opts == <<W("off"), W("1"), W("Auto")>>
Samples == {W("1"), W("true"), W("0"), W("off"), W("-7"), W("auto"), W(" yes "), W("2x"), W(""), W("x")}
ASSUME \A t \in Samples : \A ty \in {"bool", "int", "string", "enum"} :
  LET p == Parse(ty, Opts, t) IN p.ok => Parse(ty, Opts, p.val) = p \/ (ty = "enum" /\ p.val = W("1"))
=============================================================================
