----------------------------- MODULE MCPrompt -----------------------------
(* All schedules of two small filters: lines begin, coroutines take turns   *)
(* in every order, the prompt is filtered again on request, and a transient *)
(* prompt is shown; the second filter may belong to a module.               *)
EXTENDS Prompt
CONSTANTS Progs, Bodies, MaxLines
VARIABLES s, shown, seen, called, lines
vars == <<s, shown, seen, called, lines>>
P == <<<<"0", ".">>, <<"a", "0", "!">>, <<"1", "2", ".">>, <<"0", "n">>, <<"0", "e">>, <<"2", "0", "T">>, <<"z">>, <<"p", "0", "N">>>>
B == <<<<"r">>, <<"y", "r">>, <<"f", "r">>, <<"e">>, <<"y", "f", "n">>, <<"f", "y", "f">>>>
F(id, prio, mod, f, t) == [id |-> id, prio |-> prio, mod |-> mod, f |-> f, r |-> <<>>, t |-> t, u |-> <<>>, old |-> FALSE, s |-> <<>>]
Keys == {"1.0", "1.1", "1.2", "2.0", "2.1", "2.2"}
Init ==
  \E f \in [1..2 -> 1..Progs], b \in [1..2 -> 1..Bodies], prio \in {10, 20}, m \in {"", "m"}, on \in BOOLEAN, t \in {<<>>, <<"0", ".">>} :
    LET one == F("1", 10, "", P[f[1]], t)  two == F("2", prio, m, P[f[2]], t)
        st == InitSt @@ [esc |-> "E", bel |-> "B", marks |-> <<"EA", "EB">>]
    IN /\ s = [st EXCEPT !.fl = IF m = "" THEN <<one, two>> ELSE <<one>>, !.async = on, !.cwd = "C",
                         !.mods = IF m = "" THEN @ ELSE (m :> [loaded |-> FALSE, defs |-> <<two>>, deps |-> <<>>]),
                         !.body = [k \in Keys |-> B[b[IF k \in {"1.0", "1.2", "2.1"} THEN 1 ELSE 2]]]]
       /\ shown = "" /\ seen = <<>> /\ called = {} /\ lines = 0
Bs(log) == SelectSeq(log, LAMBDA e : e[1] = "b")
Cs(log) == {log[k][2] : k \in {x \in DOMAIN log : log[x][1] = "c"}}
Took(r, text) == s' = r.st /\ shown' = text /\ seen' = seen \o Bs(r.log) /\ called' = Cs(r.log) /\ UNCHANGED lines
NewLine == lines < MaxLines /\ lines' = lines + 1 /\ \E n \in {""} \cup DOMAIN s.mods : \E r \in Line(Activate(s, n, n).st, "p>", "") :
  s' = r.st /\ shown' = r.text /\ seen' = Bs(r.log) /\ called' = Cs(r.log)
Pass == lines > 0 /\ Live(s) # {} /\ \E r \in Passes(s, Live(s), shown, FALSE, <<>>) : Took(r, r.text)
Refilter == lines > 0 /\ s.async /\ \E r \in Again(s) : Took(r, r.text)
Transient == lines > 0 /\ \E r \in Runs(s, "transient", "p>", "") : Took(r, shown)
Next == NewLine \/ Pass \/ Refilter \/ Transient
Spec == Init /\ [][Next]_vars
\* What is shown is what filtering now would show.
Fresh == lines > 0 /\ s.async => shown \in {r.text : r \in Runs(s, "normal", s.p, s.r)}
\* No step of a coroutine happens twice in a line, or out of order.
Once == \A x, y \in DOMAIN seen : x < y /\ seen[x][2] = seen[y][2] => seen[x][3] # seen[y][3]
\* Filters of modules take part only while these are active.
Apart == "2" \in called /\ Len(s.fl) = 2 /\ s.fl[2].mod # "" => s.active = s.fl[2].mod
\* Without asynchronous filtering nothing is left to be done.
AtOnceDone == ~s.async => Live(s) = {}
\* A filter that says so is the last.
Stops == called = {"1", "2"} /\ s.fl[1].prio < s.fl[2].prio => s.fl[1].f[Len(s.fl[1].f)] \notin {"!", "N"} \/ s.fl[1].t # <<>>
\* Filtering is not asked for again for nothing: what ended was told.
Told == \A k \in DOMAIN s.co : s.co[k].flag # "yes"
Pinned == s.active # "" => s.mods[s.active].loaded
=============================================================================
