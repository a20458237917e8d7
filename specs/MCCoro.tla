------------------------------ MODULE MCCoro ------------------------------
(* All schedules of small programs: coroutines are created, processes end,  *)
(* passes are made in every order, lines begin.                             *)
EXTENDS Coro, TLC
CONSTANTS N, MaxLines
VARIABLES s, ran
Op(o) == [o |-> o, n |-> 0, c |-> ""]
OpN(o, n) == [o |-> o, n |-> n, c |-> ""]
Cats == {"prompt", ""}
Order == <<<<Op("p")>>, <<Op("q"), Op("y"), Op("w")>>, <<Op("x"), Op("p")>>, <<OpN("m", 1), Op("y"), OpN("m", 1)>>, <<Op("u"), Op("x")>>, <<OpN("r", 1), Op("p")>>>>
Init ==
  /\ \E f \in [1..N -> 1..Len(Order)], c \in [1..N -> Cats] :
       /\ \A x \in 2..(N - 1) : f[x] <= f[x + 1]
       /\ c[1] = "prompt"
       /\ s = [Line(InitSt(0)) EXCEPT !.prog = [x \in Ids |-> IF x <= N THEN [cat |-> c[x], iv |-> 0, prog |-> Order[f[x]]] ELSE NoProg]]
  /\ ran = <<>>
RECURSIVE All(_, _, _, _)
All(st, todo, gone, log) ==
  IF todo = {} THEN {[st |-> End(st, gone), log |-> log]}
  ELSE UNION {IF st.co[x].live # "s" \/ ~st.co[x].known THEN All(st, todo \ {x}, gone, log)
              ELSE UNION {All(r.st, todo \ {x}, IF r.st.co[x].live = "dead" THEN gone \union {x} ELSE gone, r.log) : r \in Turn(st, x, log)}
              : x \in todo}
Pass == LET b == Begin(s) IN \E r \in All(b, {x \in Known(b) : Due(b, x)}, {}, <<>>) : s' = r.st /\ ran' = r.log
New == \E x \in 1..N : s.co[x].live = "no" /\ s' = Create(s, x) /\ ran' = <<>>
Fin == \E x \in DOMAIN s.g : ran' = <<>> /\ \/ ~s.g[x].out /\ s' = [s EXCEPT !.g[x].out = TRUE]
                                            \/ ~s.g[x].exit /\ s' = [s EXCEPT !.g[x].exit = TRUE]
WaitIt == s' = Release(s) /\ ran' = <<>>
NewLine == s.gen <= MaxLines /\ s' = Line(s) /\ ran' = <<>>
Next == Pass \/ New \/ Fin \/ WaitIt \/ NewLine
Spec == Init /\ [][Next]_<<s, ran>>
\* At most one process of a category is waited for at a time.
OneAtATime == \A c \in Cats \ {""} : Cardinality({x \in DOMAIN s.g : s.g[x].held /\ s.g[x].cat = c /\ ~Ready(s.g[x])}) <= 1
\* A process for a category starts only when none is running in it.
StartsFree == \A k \in DOMAIN ran : ran[k].k = "s" /\ s.prog[ran[k].n].cat # "" =>
  Cardinality({x \in DOMAIN s.g : s.g[x].held /\ s.g[x].cat = s.prog[ran[k].n].cat}) <= 1
\* Whoever can go on is not kept waiting; nobody is woken for nothing.
Goes(st, x) == \E r \in Turn(st, x, <<>>) : r.st.co[x].pc # st.co[x].pc \/ r.st.co[x].w # st.co[x].w \/ r.st.co[x].live # "s"
Live == {x \in Known(s) : s.co[x].live = "s"}
NoStall == LET r == Release(s) IN (\E x \in Live : Goes(r, x)) => Timeout(r) = 0
NoSpin == LET r == Release(s) IN Timeout(r) = 0 => Obsolete(r) # {} \/ \E x \in Live : Goes(r, x)
\* What ends is not resumed; nothing is left waiting when all processes end.
Settled == LET r == Release(s) IN
  (\A x \in DOMAIN s.g : s.g[x].exit) /\ Timeout(r) = -1 => Known(r) = {}
\* A coroutine of an earlier line that need not complete starts no process.
NoGhosts == \A k \in DOMAIN ran : ran[k].k = "s" => s.co[ran[k].n].gen = s.gen \/ s.co[ran[k].n].until
Pending == s.pend = <<>>
=============================================================================
