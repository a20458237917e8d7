--------------------------- MODULE SettingsTrace ---------------------------
EXTENDS Settings, TraceLib
VARIABLES i, st
Opts(o) == Split(o, {","})
Check(k, e, want) ==
  /\ Match("file", k, e.file, want.files.settings)
  /\ Match("view", k, {[n |-> e.view[j].n, v |-> e.view[j].v, d |-> e.view[j].d, s |-> e.view[j].s] : j \in 1..Len(e.view)},
           {[n |-> n, v |-> want.reg[n].val, d |-> Descriptive(want.reg[n], FALSE), s |-> want.reg[n].save] : n \in DOMAIN want.reg})
\* (\E x \in {v} binds x to the value of v; TLC evaluates a LET in an action at each use.)
Go(k, e, want) == \E w \in {want} : Check(k, e, w) /\ st' = w
Next(k, e) ==
  CASE e.op = "reset" -> st' = Fresh
    [] e.op = "reg" -> Go(k, e, Register(st, e.n, e.type, Opts(e.opts), e.def, e.desc))
    \* a setting of clink's own; its attributes are as the code reports them
    [] e.op = "adopt" -> Go(k, e, IF ~e.found THEN st
                                  ELSE ResetOne([st EXCEPT !.reg = With(@, e.n, [type |-> e.type, opts |-> Opts(e.opts), def |-> e.def, desc |-> e.desc, val |-> e.def, save |-> FALSE])], e.n))
    [] e.op = "unreg" -> Go(k, e, Unregister(st, e.n))
    [] e.op = "write" -> Go(k, e, [st EXCEPT !.files[e.f] = e.t])
    [] e.op = "del" -> Go(k, e, [st EXCEPT !.files[e.f] = NoFile])
    [] e.op = "load" -> Go(k, e, Load(st))
    \* loading what was just saved restores every value
    [] e.op = "reload" -> \E w \in {Load(st)} :
         /\ Match("restored", k, {[n |-> e.view[j].n, d |-> e.view[j].d] : j \in 1..Len(e.view)}, {[n |-> n, d |-> Descriptive(st.reg[n], FALSE)] : n \in DOMAIN st.reg})
         /\ Go(k, e, w)
    [] e.op = "save" -> Go(k, e, Save(st))
    [] e.op = "set" -> \E r \in {SetOne(st, FindName(st, e.n), e.t)} : Match("accepted", k, e.ok, r.ok) /\ Go(k, e, r.st)
    [] e.op = "clear" -> Go(k, e, ResetOne(st, FindName(st, e.n)))
    [] e.op = "overlay" -> Go(k, e, Apply(st, e.changes, 1))
    [] e.op = "file.overlay" -> Match("ok", k, e.ok, TRUE) /\ Go(k, e, UpdateFile(st, e.changes))
    \* the Lua functions settings.set and settings.clear
    [] e.op = "lua.set" -> \E r \in {SetOne(st, FindName(st, e.n), e.t)} : \E u \in {UpdateOne(r.st, [n |-> e.n, set |-> TRUE, v |-> e.t])} :
                           Match("accepted", k, e.ok, r.ok) /\ Go(k, e, IF r.ok THEN u.st ELSE r.st)
    [] e.op = "lua.clear" -> Go(k, e, UpdateOne(ResetOne(st, FindName(st, e.n)), [n |-> e.n, set |-> FALSE, v |-> <<>>]).st)
    [] e.op = "ini" -> \E p \in {ParseIni(e.t)} : Match("ini valid", k, e.ok, p.ok) /\ (p.ok => Match("ini", k, e.out, p.out)) /\ UNCHANGED st
    [] e.op = "color" -> \E p \in {ParseColor(e.t)} : \E f \in {FormatColor(p.val, FALSE)} :
         /\ Match("colour accepted", k, e.ok, p.ok)
         /\ p.ok => Match("colour", k, e.code, p.val) /\ Match("colour in words", k, e.words, f) /\ Match("compatible words", k, e.compat, FormatColor(p.val, TRUE))
         /\ UNCHANGED st
Spec == i = 1 /\ st = Fresh /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_<<i, st>>
=============================================================================
