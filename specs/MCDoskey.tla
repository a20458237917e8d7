----------------------------- MODULE MCDoskey -----------------------------
(* Declarative properties of Expand, on every line up to MaxLen characters. *)
EXTENDS Doskey, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES t, enh
Macros == [x \in {<<"a">>, <<"a", "&">>} |-> IF x = <<"a">> THEN <<"E", "$", "*", "F">> ELSE <<"G">>]
AlphabetQ == {"a", "b", " ", "|", "(", ")", "\"", "^"}
AlphabetT == AlphabetQ \cup {"&", ">"}
Init == t = <<>> /\ enh \in BOOLEAN
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c) /\ UNCHANGED enh
Spec == Init /\ [][Next]_<<t, enh>>

Count(x, c) == Cardinality({i \in 1..Len(x) : x[i] = c})
Out == Expand(Macros, t, enh)
\* Nothing the user typed disappears except macro names and the spaces around
\* arguments: every parenthesis, quote, escape and separator survives.
Preserved == \A c \in {"(", ")", "\"", "^", "|", "b"} : Count(Out, c) >= Count(t, c) \/ \E i \in 1..Len(t) : t[i] = "&"
\* With no macro mentioned, the line is unchanged.
Unchanged == (\A i \in 1..Len(t) : t[i] # "a") => Out = t
\* A leading space suppresses expansion of the first command.
SpaceSuppresses == (At(t, 1) = " " /\ Count(t, "|") + Count(t, "&") + Count(t, "(") = 0) => Out = t
\* Only whole command words are macros.
Whole == (Count(t, "a") = 1 /\ \E i \in 1..Len(t) : t[i] = "a" /\ (At(t, i - 1) \in {"b", "^", "\"", ">"} \/ At(t, i + 1) \in {"b", "^", "\"", ">"})) => Out = t
\* A bare name expands, in any command when enhanced.
Expands == (\E i \in 1..Len(t) : Sub(t, 1, i - 1) = <<>> /\ t[i] = "a" /\ At(t, i + 1) \in {"", " "}) => Out # t
ExpandsLater == enh => \A i \in 2..Len(t) :
   (t[i] = "a" /\ t[i - 1] = "|" /\ At(t, i + 1) \in {"", " "} /\ Count(Sub(t, 1, i), "\"") = 0 /\ Count(Sub(t, 1, i), "^") = 0) => Out # t
\* Balanced parentheses stay balanced when the macro has them not.
=============================================================================
