-------------------------- MODULE ShortcutsTrace --------------------------
EXTENDS Shortcuts, TraceLib
VARIABLES i, s
Names == {<<"a">>, <<"a", "b">>, <<"a", "b", "c d">>, <<"c d">>, <<"md">>, <<"md", "a">>, <<"e,f">>, <<"p%q">>, <<"x.y">>, <<"home">>, <<"home", "a">>, <<"g^h">>, <<"k+">>}
Dirs == {[k \in DOMAIN n |-> Ch(n[k])] : n \in Names}
Init0 == [root |-> <<>>, cwd |-> <<>>, home |-> <<>>, dirs |-> Dirs, hist |-> <<>>, mode |-> "add"]
Lines(h) == Flat([k \in DOMAIN h |-> <<"\n">> \o h[k]])
Step(k, e) ==
  CASE e.op = "reset" -> s' = [Init0 EXCEPT !.root = Ch(e.root), !.cwd = Ch(e.root), !.home = Ch(e.root) \o Ch("\\home"), !.mode = e.mode]
    [] e.op = "cwd" -> s' = [s EXCEPT !.cwd = Ch(e.cwd)]
    [] e.op = "line" -> s' = s /\ \E m \in {LET g == Target(Ch(e.in))  f == Full(s, g.t)  x == Meaning(s, Ch(e.in), e.mode) IN
           IF x.r # 1 /\ e.mode # 1 /\ g.ok /\ ~g.dots /\ Unsure(s, f) THEN [r |-> e.r, t |-> f] ELSE x} :
         /\ Match("result", k, e.r, m.r)
         /\ IF m.r # 2 \/ e.mode = 2 THEN Match("untouched", k, e.out, "none")
            ELSE IF Tilde(Target(Ch(e.in)).t) THEN
              LET o == Ch(e.out)  p == SubSeq(o, 6, Len(o) - 1) IN
              /\ Match("command", k, Take(o, 5), Take(Command(s, m.t), 5))
              /\ Match("place", k, At0(s, p), At0(s, m.t))
            ELSE Match("out", k, e.out, Str(Command(s, SepsOnly(m.t, "\\"))))
    [] e.op = "make" -> s' = s /\ Match("make", k, e.out, Str(Command(s, Ch(e.dir))))
    [] e.op = "prompt" -> s' = [s EXCEPT !.hist = Prompt(@, s.cwd, s.mode)]
    [] e.op = "prev" -> s' = s /\ Match("prev", k, e.out, IF Previous(s.hist) = <<>> THEN "" ELSE Str(Command(s, Previous(s.hist))))
    [] e.op = "dirs" -> s' = s /\ Match("dirs", k, e.out, "?" \o Str(Lines(s.hist)))
Spec == i = 1 /\ s = Init0 /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Step(i, Trace[i])]_<<i, s>>
=============================================================================
