----------------------------- MODULE MCCmdWords -----------------------------
(* Declarative properties of Collect, on every line up to MaxLen characters. *)
EXTENDS CmdWords, TLC
CONSTANTS MaxLen, Alphabet
VARIABLE t
AlphabetQ == {"a", " ", "&", "\"", "^", ">", "("}
AlphabetT == AlphabetQ \cup {")", "1", "/"}
\* "mac" lines: a macro named a& in half of the model
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t
NoMacros == [x \in {} |-> <<>>]
X(stop) == Collect(NoMacros, t, Len(t), stop, TRUE, FALSE)

\* Independent definition of which characters are quoted or escaped by CMD:
\* " toggles unless escaped, ^ escapes the next character outside quotes.
RECURSIVE Marks(_, _, _)
Marks(i, q, acc) == IF i > Len(t) THEN acc
  ELSE IF q THEN Marks(i + 1, t[i] # "\"", Append(acc, TRUE))
  ELSE IF t[i] = "^" THEN (IF i = Len(t) THEN Append(acc, FALSE) ELSE Marks(i + 2, FALSE, acc \o <<FALSE, TRUE>>))
  ELSE Marks(i + 1, t[i] = "\"", Append(acc, FALSE))
Protected == Marks(1, FALSE, <<>>)
In(p, w) == p >= w.o /\ p < w.o + w.n

Ordered == \A stop \in BOOLEAN : LET x == X(stop) IN
  /\ \A k \in 1..(Len(x.words) - 1) : x.words[k].o + x.words[k].n <= x.words[k + 1].o
  /\ \A k \in 1..(Len(x.commands) - 1) : x.commands[k].o + x.commands[k].n <= x.commands[k + 1].o
Within == \A stop \in BOOLEAN : LET x == X(stop) IN
  /\ x.words # <<>> /\ x.commands # <<>>
  /\ \A k \in 1..Len(x.words) : x.words[k].o >= 1 /\ x.words[k].n >= 0 /\ x.words[k].o + x.words[k].n <= Len(t) + 1
  /\ \A k \in 1..Len(x.words) : x.words[k].n > 0 => \E m \in 1..Len(x.commands) :
       x.words[k].o >= x.commands[m].o /\ x.words[k].o + x.words[k].n <= x.commands[m].o + x.commands[m].n
\* A quoted or escaped separator never divides the line.
NotDivided == LET x == X(FALSE) IN
  \A k \in 1..(Len(x.commands) - 1) : LET p == x.commands[k].o + x.commands[k].n IN
     \E s \in p..(x.commands[k + 1].o - 1) : t[s] = "&" /\ ~Protected[s]
\* An unprotected separator after a command's text divides the line.
Divided == LET x == X(FALSE) IN
  \A s \in 2..Len(t) : (t[s] = "&" /\ ~Protected[s] /\ t[s - 1] = "a" /\ ~Protected[s - 1] /\ (s = 2 \/ t[s - 2] \in {"a", "&", " "}) /\ ~\E r \in 1..s : t[r] = ">") =>
     \E k \in 1..Len(x.commands) : x.commands[k].o + x.commands[k].n = s
\* Every letter belongs to exactly one word.
Covered == LET x == X(FALSE) IN
  \A p \in 1..Len(t) : t[p] = "a" => Cardinality({k \in 1..Len(x.words) : In(p, x.words[k])}) = 1
\* Completing at the end: the last word reaches the cursor.
EndWord == LET x == X(TRUE) w == x.words[Len(x.words)] IN
  w.o + w.n = Len(t) + 1 \/ (w.q /\ w.o + w.n = Len(t) /\ t[Len(t)] = "\"")
\* The first word of each group is its command word; a redirection's argument is flagged.
Groups == LET x == X(FALSE) s == LineStates(t, x) IN
  /\ s # <<>>
  /\ \A k \in 1..(Len(s) - 1) : s[k].o < s[k + 1].o
  /\ LET RECURSIVE sum(_) sum(k) == IF k = 0 THEN 0 ELSE s[k].n + sum(k - 1) IN sum(Len(s)) = Len(x.words)
=============================================================================
