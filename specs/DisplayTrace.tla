----------------------------- MODULE DisplayTrace -----------------------------
EXTENDS Display, TraceLib
WideChars == {"Wa", "Wb", "Wc"}
VARIABLES i, t, m, views, line
vars == <<i, t, m, views, line>>
Full(x) == [rows |-> TrimRows([y \in 1..Len(x.rows) |-> PadTo(x.rows[y], t.w)], Len(x.rows)), r |-> x.r, c |-> x.c]
Screen(T) == [rows |-> Shown(T), r |-> T.r - 1, c |-> T.c]
On(above, mm, v) == LET pre == above \o PrefixRows(mm.prefix, mm.w) IN
    [rows |-> pre \o v.rows, r |-> Len(pre) + v.r, c |-> v.c, end |-> Len(pre) + v.end]
Begin(k, e, T, mm) ==
    \E VS \in {{On(mm.above, mm, v) : v \in Views(mm, e.text, e.pt)}} : \E G \in {{v \in VS : Full(v) = Screen(T)}} :
        /\ IF G # {} /\ ~T.pend THEN TRUE ELSE Match(e.op, k, Screen(T), IF VS = {} THEN [rows |-> <<>>, r |-> 0, c |-> 0] ELSE Full(CHOOSE v \in VS : TRUE))
        /\ t' = T /\ m' = mm /\ views' = G /\ line' = [text |-> e.text, pt |-> e.pt]
\* Accepting the line leaves it on the screen, below the transient prompt if there is one.
Ended(k, e, T) ==
    \E V \in {IF m.trans # <<>> THEN {On(m.above, m.trans[1], v) : v \in Views(m.trans[1], line.text, line.pt)} ELSE views} :
    \E G \in {{v \in V : Full(v).rows = Shown(T) /\ v.end = T.r - 1}} :
        /\ IF G # {} /\ T.c = 0 /\ ~T.pend THEN TRUE
           ELSE Match("accepted", k, [rows |-> Shown(T), r |-> T.r - 1, c |-> T.c, p |-> T.pend],
                      LET v == CHOOSE v \in V : TRUE IN [rows |-> Full(v).rows, r |-> v.end, c |-> 0, p |-> FALSE])
        /\ t' = T /\ m' = m /\ views' = {} /\ line' = line
Cut(T) == LET rows == [y \in 1..(T.r - 1) |-> IF y <= Len(T.rows) THEN T.rows[y] ELSE BlankRow(T.w)] IN rows
Transient(e, mm) == IF e.trans THEN [mm EXCEPT !.trans = <<[mm EXCEPT !.prefix = e.tprefix, !.prompt = e.tlast, !.right = e.tright]>>] ELSE mm
\* Once the prompt has scrolled off the top of the screen, it cannot be replaced.
Lost == t.base > Len(m.above) + 1
Next(k, e) ==
  CASE e.op = "END" -> UNCHANGED <<t, m, views, line>>
    [] e.op = "reset" -> /\ t' = NewTerm(e.w, e.h) /\ views' = {} /\ line' = [text |-> <<>>, pt |-> 0]
                         /\ m' = [w |-> e.w, h |-> e.h, max |-> e.max, horz |-> e.horz, prefix |-> <<>>, prompt |-> <<>>, right |-> <<>>, above |-> <<>>, trans |-> <<>>, lost |-> FALSE]
    [] e.op = "print" -> t' = Feed(t, e.ops) /\ UNCHANGED <<m, views, line>>
    [] e.op = "line" -> \E T \in {Feed(t, e.ops)} : Begin(k, e, T, Transient(e, [m EXCEPT !.prefix = e.prefix, !.prompt = e.last, !.right = e.right, !.above = Cut(t), !.trans = <<>>, !.lost = FALSE]))
    [] e.op = "prompt" /\ Lost -> t' = Feed(t, e.ops) /\ m' = [m EXCEPT !.lost = TRUE] /\ UNCHANGED <<views, line>>
    [] e.op \in {"prompt", "key", "cmd"} /\ m.lost -> t' = Feed(t, e.ops) /\ UNCHANGED <<m, views, line>>
    [] e.op = "key" /\ ~e.begun /\ m.trans # <<>> /\ Lost -> t' = Feed(t, e.ops) /\ UNCHANGED <<m, views, line>>
    [] e.op = "prompt" -> \E T \in {Feed(t, e.ops)} : Begin(k, e, T, [m EXCEPT !.prefix = e.prefix, !.prompt = e.last, !.right = e.right])
    [] e.op \in {"key", "cmd"} -> \E T \in {Feed(t, e.ops)} :
           IF ~e.begun THEN Ended(k, e, T)
           ELSE Begin(k, e, T, IF e.clear THEN [m EXCEPT !.above = [y \in 1..(t.base - 1) |-> T.rows[y]]] ELSE m)
Init == i = 1 /\ t = NewTerm(1, 1) /\ m = [w |-> 1] /\ views = {} /\ line = [text |-> <<>>, pt |-> 0]
Spec == Init /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_vars
=============================================================================
