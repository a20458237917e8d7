------------------------------- MODULE Chars -------------------------------
(* Texts as sequences of one-character strings.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* A text as one string, to compare with a literal.
Str(t) == LET RECURSIVE go(_, _) go(i, s) == IF i > Len(t) THEN s ELSE go(i + 1, s \o t[i]) IN go(1, "")
\* (TLC keeps [x \in S |-> e] as a rule, evaluated at each use; \o makes it a tuple.)
Ch(s) == <<>> \o [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Take(t, n) == SubSeq(t, 1, IF n < Len(t) THEN n ELSE Len(t))
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE "" \* "" : end of text
\* Printable ASCII in code order (32..126).
AsciiSeq == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~">>
AsciiSet == {" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~"}
CodeOf(c) == (CHOOSE i \in 1..95 : AsciiSeq[i] = c) + 31
Code(c) == IF c \in AsciiSet THEN CodeOf(c) ELSE IF c = "\t" THEN 9 ELSE IF c = "\n" THEN 10 ELSE 255
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitVal(c) == (CHOOSE i \in 1..10 : DigitSeq[i] = c) - 1
UpperSet == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
UpperSeq == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
LowerSeq == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Low(c) == IF c \in UpperSet THEN LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c] ELSE c
Lower(t) == <<>> \o [i \in 1..Len(t) |-> Low(t[i])]
Spaces == {" ", "\t", "\n", "\r", "\f"}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
\* The first position >= i at which P holds, or Len(t) + 1.
Find(t, i, P(_)) == LET RECURSIVE go(_)
                        go(k) == IF k > Len(t) THEN Len(t) + 1 ELSE IF P(t[k]) THEN k ELSE go(k + 1)
                    IN go(i)
\* The last position <= i at which P holds, or 0.
FindBack(t, i, P(_)) == LET RECURSIVE go(_)
                            go(k) == IF k < 1 THEN 0 ELSE IF P(t[k]) THEN k ELSE go(k - 1)
                        IN go(i)
TrimL(t, sp) == SubSeq(t, Find(t, 1, LAMBDA c : c \notin sp), Len(t))
TrimR(t, sp) == SubSeq(t, 1, FindBack(t, Len(t), LAMBDA c : c \notin sp))
Trim(t) == TrimL(TrimR(t, Spaces), Spaces)
\* Non-empty pieces between delimiters.
Split(t, ds) ==
  LET RECURSIVE go(_)
      go(i) == LET s == Find(t, i, LAMBDA c : c \notin ds)
                   e == Find(t, s, LAMBDA c : c \in ds)
               IN IF s > Len(t) THEN <<>> ELSE <<SubSeq(t, s, e - 1)>> \o go(e)
  IN go(1)
RECURSIVE Less(_, _)      \* strcmp order
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] = b[1] THEN Less(Tail(a), Tail(b)) ELSE Code(a[1]) < Code(b[1])
RECURSIVE SortTexts(_)
SortTexts(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : ~Less(y, x) IN <<m>> \o SortTexts(S \ {m})
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<AsciiSeq[n + 17]>> ELSE NatText(n \div 10) \o <<AsciiSeq[(n % 10) + 17]>>
IntText(n) == IF n < 0 THEN <<"-">> \o NatText(-n) ELSE NatText(n)
\* atoi (numbers of up to nine digits)
Atoi(t) == LET s == TrimL(t, Spaces)
               neg == At(s, 1) = "-"
               b == IF At(s, 1) \in {"-", "+"} THEN 2 ELSE 1
               RECURSIVE go(_, _)
               go(i, v) == IF At(s, i) \in Digits THEN go(i + 1, v * 10 + DigitVal(s[i])) ELSE v
           IN IF neg THEN -go(b, 0) ELSE go(b, 0)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
=============================================================================
