------------------------------ MODULE MCEditor ------------------------------
(* All short sessions of the editor, with the laws its commands obey.        *)
EXTENDS Editor
CONSTANTS Letters, Lines, MaxSteps, Cmds
VARIABLES s, steps
vars == <<s, steps>>
Lines1 == <<<<"a", " ">>, <<"b">>>>
Init == s \in {Fresh(SubSeq(Lines1, 1, n), <<>>, <<"b">>) : n \in Lines} /\ steps = 0
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E c \in Letters : s' = Typed(s, <<c>>)
           \/ \E c \in Cmds : s' \in Run(s, c, 1, FALSE)
           \/ \E c \in Cmds : s' \in Run(s, c, 2, TRUE)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Good == WellFormed(s)
\* A change can be undone: the text before it comes back.
ChangeNames == {"delete-char", "backward-delete-char", "kill-line", "backward-kill-line", "kill-word", "backward-kill-word", "unix-word-rubout", "kill-whole-line",
                "yank", "clink-paste", "cua-cut", "transpose-chars", "transpose-words", "upcase-word", "delete-horizontal-space", "clink-insert-dot-dot", "kill-region"}
Undoable == \A c \in ChangeNames : \A x \in Run(s, c, 1, FALSE) : x.text # s.text => \E y \in Undone(x) : y.text = s.text
\* Undoing everything leads to the line as it was before it was ever edited.
UndoneAll == LET x == IF s.past = <<>> THEN s ELSE Back(s, 1, 0) IN x.text = Original(s) /\ x.past = <<>>
\* What was killed can be put back.
KillYank == LET f == [s EXCEPT !.kill = FALSE, !.an = -1]
            IN \A c \in {"kill-line", "backward-kill-line", "kill-word", "backward-kill-word", "unix-word-rubout", "unix-filename-rubout"} :
                 \A x \in Run(f, c, 1, FALSE) : x.text # s.text => \A y \in Run(x, "yank", 1, FALSE) : y.text = s.text
\* Two kills in a row gather into one.
KillKill == LET f == [s EXCEPT !.kill = FALSE, !.an = -1]
            IN \A x \in Run(f, "backward-kill-word", 1, FALSE) : \A y \in Run(x, "kill-line", 1, FALSE) :
                 (x.text # s.text /\ y.text # x.text) => \A z \in Run(y, "yank", 1, FALSE) : z.text = s.text
\* Cutting and pasting the selection is no change.
CutPaste == Sel(s) => \A x \in Run(s, "cua-cut", 1, FALSE) : \A y \in Run(x, "clink-paste", 1, FALSE) : y.text = s.text /\ y.clip = SubSeq(s.text, Lo(s) + 1, Hi(s))
\* The selection is all a deletion deletes.
SelOnly == Sel(s) => \A c \in {"delete-char", "backward-delete-char", "kill-word", "backward-kill-word"} :
                       \A x \in Run(s, c, 1, FALSE) : x.text = Cut(s.text, Lo(s), Hi(s)) /\ x.pt = Lo(s) /\ x.an = -1 /\ x.ring = s.ring
\* Going through the history and back loses nothing.
Returns == \A c \in {"previous-history", "beginning-of-history"} : \A x \in Run(s, c, 1, FALSE) :
             /\ \A y \in Run(x, "next-history", s.h - x.h, TRUE) : y.text = s.text /\ y.past = s.past /\ y.h = s.h
             /\ \A j \in 1..Len(s.slots) : j \notin {s.h, x.h} => x.slots[j] = s.slots[j]
\* The accepted line is the line shown, and the history is as it was.
Accepts == LET x == Accept(s) IN x.done = <<s.text>> /\ (s.h < Newest(s) => x.slots[s.h].text = Original(s))
\* Moving changes nothing but the cursor, and word motions are inverse up to words.
Moves == \A c \in {"forward-char", "backward-char", "forward-word", "backward-word", "beginning-of-line", "end-of-line"} :
           \A x \in Run(s, c, 1, FALSE) : x.text = s.text /\ x.past = s.past /\ Boundary(s.text, x.pt)
Cursor == Boundary(s.text, s.pt)
=============================================================================
