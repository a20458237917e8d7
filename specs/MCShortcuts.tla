---------------------------- MODULE MCShortcuts ----------------------------
(* All short lines, and all short histories of visited directories.         *)
EXTENDS Shortcuts
CONSTANTS MaxLen, MaxVisits
VARIABLES line, hist, mode, n
vars == <<line, hist, mode, n>>
Alpha == {"a", ".", " ", "\\", "\"", "^", "&", "-", "~"}
Cwds == {<<"a">>, <<"A">>, <<"b">>, <<"c">>}
St == [root |-> Ch("z:\\r"), cwd |-> Ch("z:\\r\\a"), home |-> Ch("z:\\r\\a"), dirs |-> {<<Ch("a")>>, <<Ch("a"), Ch("a")>>}]
Init == line = <<>> /\ hist = <<>> /\ n = 0 /\ mode \in {"lines", "add", "erase_prev"}
Type == mode = "lines" /\ Len(line) < MaxLen /\ \E c \in Alpha : line' = Append(line, c) /\ UNCHANGED <<hist, mode, n>>
Visit == mode # "lines" /\ n < MaxVisits /\ n' = n + 1 /\ \E d \in Cwds : hist' = Prompt(hist, d, mode) /\ UNCHANGED <<line, mode>>
Spec == Init /\ [][Type \/ Visit]_vars
M(l) == Meaning(St, l, 0)
Plain(l) == \A k \in DOMAIN l : l[k] \in {"a", ".", "\\", "~"}
Strip(l) == SelectSeq(l, LAMBDA c : c \notin {" ", "\"", "^"})
\* Only something that looks like a directory is one.
Looks == M(line).r = 2 => LET s == Strip(line)  l == s[Len(s)] IN l \in {".", "\\"} \/ s = <<"~">>
\* Blanks around a line mean nothing.
Blanks == LET a == M(line) IN (Len(line) < MaxLen /\ (line = <<>> \/ ~(line[Len(line)] \in {"^"} \/ Len(SelectSeq(line, LAMBDA c : c = "\"")) % 2 = 1))) =>
  M(<<" ">> \o line) = a /\ M(line \o <<" ">>) = a
\* Quotes change nothing where there is nothing to quote.
Quotes == Plain(line) => M(<<"\"">> \o line \o <<"\"">>) = M(line)
\* Specials outside quotes are left alone.
Specials == M(line).r = 2 => \A k \in DOMAIN line : line[k] = "&" => Len(SelectSeq(SubSeq(line, 1, k), LAMBDA c : c = "\"")) % 2 = 1
\* Each dot after the first goes up one level.
Up == NumDots(line) > 0 /\ Len(line) = NumDots(line) => M(line).r = 2 /\ Len(M(line).t) = 3 * (Len(line) - 1)
\* The commands of CD alone never change to another directory than the last.
Only == Meaning(St, line, 1).r \in {0, 1} /\ (M(line).r = 1 => Strip(line) = <<"-">>)
\* What the command names is what was typed.
Names == M(line).r = 2 /\ ~(\E k \in DOMAIN line : line[k] = "^") /\ NumDots(Word(line).t) = 0 => IsDir(St, M(line).t) /\ (Unsure(St, M(line).t) \/ At0(St, M(line).t) = At0(St, Full(St, Word(line).t)))
\* -------- histories
Last(h) == h[Len(h)]
Here == hist # <<>> /\ Previous(hist) # <<>> => Lower(Previous(hist)) # Lower(Last(hist))
Apart == mode = "erase_prev" => \A x, y \in DOMAIN hist : x # y => Lower(hist[x]) # Lower(hist[y])
\* Going back twice is to stay.
Toggle == Len(hist) >= 2 => LET a == Previous(hist)  h == Prompt(hist, a, mode) IN Lower(Previous(h)) = Lower(Last(hist)) /\ Last(h) = a
=============================================================================
