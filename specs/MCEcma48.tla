----------------------------- MODULE MCEcma48 -----------------------------
(* Properties of the splitting of every text up to MaxLen characters.       *)
EXTENDS Ecma48
CONSTANTS MaxLen, Alphabet
VARIABLES t
AlphabetQ == {"a", ESC, "[", "]", "\\", BEL, "1", "m", "("}
AlphabetT == AlphabetQ \cup {";", "u4e2d", "u01"}
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t
\* The items the text divides into, with the malformed and the unfinished ones.
Items == LET RECURSIVE go(_) go(i) == IF i > Len(t) THEN <<>> ELSE LET f == First(t, i) IN <<[f |-> f, b |-> i]>> \o go(f.e) IN go(1)
Whole == Flat([n \in 1..Len(Items) |-> SubSeq(t, Items[n].b, Items[n].f.e - 1)]) = t
Progress == \A n \in 1..Len(Items) : Items[n].f.e > Items[n].b
\* Only codes can be malformed or unfinished; only the last can be unfinished.
OnlyCodes == \A n \in 1..Len(Items) : Items[n].f.what # "item" => t[Items[n].b] = ESC /\ (Items[n].f.what = "wait" => n = Len(Items))
NothingLost == (\A n \in 1..Len(Items) : Items[n].f.what = "item") => Flat([n \in 1..Len(Pieces(t)) |-> Pieces(t)[n].s]) = t
\* Visible text never hides behind a code: no ESC, no code.
NoEsc == (\A n \in 1..Len(t) : t[n] # ESC) => \A n \in 1..Len(Pieces(t)) : Pieces(t)[n].k \in {"chars", "c0"}
\* A prefix that ends between codes splits by itself.
Prefixes == \A n \in 1..Len(t) :
   LET u == SubSeq(t, 1, n)  v == SubSeq(t, n + 1, Len(t))
       RECURSIVE done(_)
       done(x) == IF x > n THEN TRUE ELSE LET f == First(u, x) IN f.what # "wait" /\ ~(f.what = "drop" /\ f.e > n) /\ done(f.e)
   IN done(1) => Merged(Pieces(t)) = Merged(Pieces(u) \o Pieces(v)) \/ u[n] = ESC
\* The text Readline sees as visible is the plain text.
RECURSIVE Unbracket(_, _)
Unbracket(s, in) == IF s = <<>> THEN <<>> ELSE IF s[1] = Soh THEN Unbracket(Tail(s), TRUE) ELSE IF s[1] = Stx THEN Unbracket(Tail(s), FALSE)
                    ELSE (IF in THEN <<>> ELSE <<s[1]>>) \o Unbracket(Tail(s), in)
NoCtl == \A n \in 1..Len(t) : t[n] \notin {Soh, BEL}
Visible == NoCtl => Unbracket(ProcOut(Proc(t, 1)), FALSE) = ProcOut(Proc(t, 4))
Verbatims == (\A n \in 1..Len(Items) : Items[n].f.what = "item") /\ (\A n \in 1..Len(t) : t[n] # ";") => ProcOut(Proc(t, 0)) = t
CountsAgree == (\A n \in 1..Len(Pieces(t)) : Pieces(t)[n].k \in {"chars", "c1"}) /\ NoCtl => ProcCells(Proc(t, 0)) = CellCount(t)
=============================================================================
