------------------------------- MODULE CmdLib -------------------------------
(* Shared by the specifications of what clink does with a command line:     *)
(* characters are one-character strings, texts are sequences of them.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sub(t, a, b) == SubSeq(t, a, b)                 \* positions a..b, from 1
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE "" \* "" : end of text

\* Doskey macros are a function from lower-case names to texts.
Low == [c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} |->
  CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] c = "G" -> "g"
    [] c = "H" -> "h" [] c = "I" -> "i" [] c = "J" -> "j" [] c = "K" -> "k" [] c = "L" -> "l" [] c = "M" -> "m" [] c = "N" -> "n"
    [] c = "O" -> "o" [] c = "P" -> "p" [] c = "Q" -> "q" [] c = "R" -> "r" [] c = "S" -> "s" [] c = "T" -> "t" [] c = "U" -> "u"
    [] c = "V" -> "v" [] c = "W" -> "w" [] c = "X" -> "x" [] c = "Y" -> "y" [] c = "Z" -> "z"]
Lower(t) == TLCEval([i \in 1..Len(t) |-> IF t[i] \in DOMAIN Low THEN Low[t[i]] ELSE t[i]])
IsMacro(macros, name) == name # <<>> /\ Lower(name) \in DOMAIN macros
MacroText(macros, name) == macros[Lower(name)]

\* The first position >= i at which P holds, or Len(t) + 1.
Find(t, i, P(_)) == LET RECURSIVE go(_)
                        go(k) == IF k > Len(t) THEN Len(t) + 1 ELSE IF P(t[k]) THEN k ELSE go(k + 1)
                    IN go(i)

\* Leading parentheses (and spaces and @ among them) before the command that
\* starts at position i; [p: position after, n: how many were skipped].
RECURSIVE SkipParens(_, _, _, _)
SkipParens(t, i, p, n) ==
  IF At(t, i) \notin {" ", "@", "("} THEN [p |-> p, n |-> n]
  ELSE IF t[i] # "(" THEN SkipParens(t, i + 1, p, n)
  ELSE LET j == IF At(t, i + 1) \in {" ", "@"} THEN i + 2 ELSE i + 1
       IN SkipParens(t, j, j, n + 1)

\* The word at i, up to a blank, when it names a macro.
WordAt(t, i) == Sub(t, i, Find(t, i, LAMBDA c : c \in {" ", "\t"}) - 1)
MacroWord(macros, t, i) == IF IsMacro(macros, WordAt(t, i)) THEN Len(WordAt(t, i)) ELSE 0

\* A leading ( is not skipped when it is the start of a macro's name, where
\* macros are expanded (first command, or enhanced doskey).
LeadingParens(macros, t, i, first, enhanced) ==
  IF (first \/ enhanced) /\ At(t, i) = "(" /\ MacroWord(macros, t, i) > 0
  THEN [p |-> i, n |-> 0] ELSE SkipParens(t, i, i, 0)

\* Trailing ) matching n skipped ( are not part of the text from `from` up to
\* before `to`; returns the position before which the text ends.
TrimParens(t, from, to, n) ==
  LET RECURSIVE go(_, _, _)
      go(p, k, ret) == IF k = 0 \/ p <= from THEN ret
                       ELSE IF t[p - 1] = ")" THEN go(p - 1, k - 1, p - 1)
                       ELSE IF t[p - 1] = " " THEN go(p - 1, k, ret) ELSE ret
  IN go(to, n, to)
=============================================================================
