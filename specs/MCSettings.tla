----------------------------- MODULE MCSettings -----------------------------
(***************************************************************************)
(* The flows in which clink uses its settings: commands (`clink set`) and   *)
(* sessions come and go, each with some of the scripts loaded, and sessions *)
(* update the file while they run.  `chosen` is a ghost: what the user last *)
(* chose for each setting.                                                  *)
(***************************************************************************)
EXTENDS Settings, TLC
CONSTANTS MaxSteps, Names, Defaults
VARIABLES files, sess, chosen, touched, steps
vars == <<files, sess, chosen, touched, steps>>
NB == <<"b">>   NS == <<"s">>   NE == <<"e">>
NamesQ == {NB, NS}   NamesT == {NB, NS, NE}
Def(n) == CASE n = NB -> [type |-> "bool", opts |-> <<>>, def |-> T_True]
            [] n = NS -> [type |-> "string", opts |-> <<>>, def |-> <<"d">>]
            [] n = NE -> [type |-> "enum", opts |-> <<<<"x">>, <<"y">>>>, def |-> <<"x">>]
ValuesOf(n) == CASE n = NB -> {<<"1">>, T_off} [] n = NS -> {<<>>, <<"q", "=">>} [] n = NE -> {<<"1">>, <<"X">>}
DefaultsQ == {NoFile, <<"b", "=", "0", "\n", "s", "=", "z", "\n">>}
DefaultsT == {NoFile, <<"b", "=", "0", "\n", "s", "=", "z", "\n">>, <<"e", " ", "=", " ", "y", "\n", "s", "=", "d", "\n">>}
Unset == <<"unset">>
BuiltIns == {NB}

Reg(st, n) == Register(st, n, Def(n).type, Def(n).opts, Def(n).def, <<"D">>)
RECURSIVE RegAll(_, _)
RegAll(st, S) == IF S = {} THEN st ELSE LET n == CHOOSE x \in S : TRUE IN RegAll(Reg(st, n), S \ {n})
\* A process: clink's own settings, the file, then those of the scripts R.
Proc(f, R) == RegAll(Load([RegAll(Fresh, BuiltIns) EXCEPT !.files = f]), R)
NoSession == [Fresh EXCEPT !.custom = [x \in {<<"no session">>} |-> <<>>]]
InSession == sess # NoSession

Choose(n, v) == chosen' = [chosen EXCEPT ![n] = Parse(Def(n).type, Def(n).opts, v).val] /\ touched' = n
Forget(n) == chosen' = [chosen EXCEPT ![n] = Unset] /\ touched' = n
Cli(R, n, set, v) ==
  \E st \in {Proc(files, R)} :
    /\ (set \/ n \in DOMAIN st.reg \/ n \in DOMAIN st.loaded)
    /\ files' = Save(IF set THEN SetByName(st, n, v, NoComment).st ELSE ClearByName(st, n)).files
    /\ IF set THEN Choose(n, v) ELSE Forget(n)
    /\ UNCHANGED sess
Begin(R) == ~InSession /\ sess' = Proc(files, R) /\ UNCHANGED <<files, chosen, touched>>
End == InSession /\ sess' = NoSession /\ UNCHANGED <<files, chosen, touched>>
Sync(s) == [s EXCEPT !.files = files]
SessionSet(n, v) ==
  /\ InSession /\ n \in DOMAIN sess.reg
  /\ \E r \in {SetOne(Sync(sess), n, v)} : \E u \in {UpdateOne(r.st, [n |-> n, set |-> TRUE, v |-> v]).st} : files' = u.files /\ sess' = [u EXCEPT !.files = Fresh.files]
  /\ Choose(n, v)
SessionClear(n) ==
  /\ InSession /\ n \in DOMAIN sess.reg
  /\ \E u \in {UpdateOne(ResetOne(Sync(sess), n), [n |-> n, set |-> FALSE, v |-> <<>>]).st} : files' = u.files /\ sess' = [u EXCEPT !.files = Fresh.files]
  /\ Forget(n)
\* a theme, in this session only, or also in the file
Overlay(n, v) ==
  /\ InSession
  /\ sess' = Apply(sess, <<[n |-> n, set |-> TRUE, v |-> v]>>, 1)
  /\ UNCHANGED <<files, chosen, touched>>
FileOverlay(n, v) ==
  /\ InSession
  /\ \E u \in {UpdateFile(Sync(sess), <<[n |-> n, set |-> TRUE, v |-> v]>>)} : files' = u.files /\ sess' = [u EXCEPT !.files = Fresh.files]
  /\ Choose(n, v)
ScriptAdds(n) == InSession /\ n \notin DOMAIN sess.reg /\ sess' = Reg(sess, n) /\ UNCHANGED <<files, chosen, touched>>
ScriptGone(n) == InSession /\ n \in DOMAIN sess.reg \ BuiltIns /\ sess' = Unregister(sess, n) /\ UNCHANGED <<files, chosen, touched>>
Scripts == SUBSET (Names \ BuiltIns)
Init == files \in {[Fresh.files EXCEPT !.defaults = d] : d \in Defaults} /\ sess = NoSession /\ chosen = [n \in Names |-> Unset] /\ touched = <<>> /\ steps = 0
Next == steps < MaxSteps /\ steps' = steps + 1 /\
  (\/ \E R \in Scripts : Begin(R) \/ \E n \in Names : Cli(R, n, FALSE, <<>>) \/ \E v \in ValuesOf(n) : Cli(R, n, TRUE, v)
   \/ End
   \/ \E n \in Names : SessionClear(n) \/ ScriptAdds(n) \/ ScriptGone(n) \/ \E v \in ValuesOf(n) : SessionSet(n, v) \/ Overlay(n, v) \/ FileOverlay(n, v))
Spec == Init /\ [][Next]_vars

\* Whatever scripts are loaded next, every setting has the value the user
\* chose last, or else its default.
Effective == \A R \in Scripts : \E st \in {Proc(files, R)} : \A n \in DOMAIN st.reg :
   st.reg[n].val = IF chosen[n] = Unset THEN DefaultVal(st, n) ELSE chosen[n]
\* The file's values of settings whose scripts aren't loaded are kept.
\* Updating the file doesn't change the session's other settings.
Undisturbed == [][\A n \in Names :
   (files' # files /\ InSession /\ sess' # NoSession /\ n # touched' /\ n \in DOMAIN sess.reg) =>
      (n \in DOMAIN sess'.reg /\ (sess'.reg[n].val = sess.reg[n].val))]_vars
=============================================================================
