--------------------------- MODULE CmdWordsTrace ---------------------------
EXTENDS CmdWords, TraceLib
VARIABLES i, macros, enh, sl
NoMacros == [x \in {} |-> <<>>]
With(name, text) == [x \in DOMAIN macros \cup {Lower(name)} |-> IF x = Lower(name) THEN text ELSE macros[x]]
Next(k, e) ==
  CASE e.op = "reset" -> macros' = NoMacros /\ enh' = e.enh /\ sl' = e.sl
    [] e.op = "alias" -> macros' = With(e.n, e.t) /\ UNCHANGED <<enh, sl>>
    [] e.op = "words" ->
         \E x \in {Collect(macros, e.t, e.cur, e.stop, enh, sl)} :
         /\ Match("commands", k, e.commands, [m \in 1..Len(x.commands) |-> [o |-> x.commands[m].o - 1, n |-> x.commands[m].n, a |-> x.commands[m].a]])
         /\ Match("words", k, e.words, [m \in 1..Len(x.words) |-> [x.words[m] EXCEPT !.o = @ - 1]])
         /\ Match("command offset", k, e.off, x.offset - 1)
         /\ \E s \in {LineStates(e.t, x)} :
            Match("line states", k, e.states, [m \in 1..Len(s) |-> [s[m] EXCEPT !.o = @ - 1, !.ro = @ - 1]])
         /\ UNCHANGED <<macros, enh, sl>>
Spec == i = 1 /\ macros = NoMacros /\ enh = TRUE /\ sl = FALSE
        /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_<<i, macros, enh, sl>>
=============================================================================
