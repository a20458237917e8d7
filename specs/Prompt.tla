------------------------------- MODULE Prompt -------------------------------
(* Prompt filters (clink/app/scripts/prompt.lua, clink/lua/src/prompt.cpp): *)
(* which functions are called with what, what they make of the prompt, when *)
(* the prompt is filtered again, and which modules take part.               *)
(* What happens is a log: <<"c", id, name, text>> a filter's function is    *)
(* called; <<"b", key, k, async>> a coroutine does its k-th step;           *)
(* <<"S", kind>> filtering begins; <<"F", text, right, ok>> it ends;        *)
(* <<"load"/"on"/"off"/"m", module>>.                                       *)
EXTENDS Chars
NoText == <<>>                  \* instead of a string: nil
InitSt == [fl |-> <<>>, mods |-> [x \in {} |-> 0], cb |-> <<>>, active |-> "", act |-> "", deps |-> {}, body |-> [x \in {} |-> 0],
           co |-> [x \in {} |-> 0], async |-> TRUE, env |-> <<"", "", "", "">>, codes |-> <<"", "", "">>, cwd |-> "", depth |-> 0, p |-> "", r |-> ""]
Active(st, x) == x.mod = "" \/ x.mod = st.active \/ x.mod \in st.deps
RECURSIVE Orders(_)
\* Lower priorities first; among equals any order.
Orders(fs) ==
  IF fs = <<>> THEN {<<>>}
  ELSE LET m == {x \in DOMAIN fs : \A y \in DOMAIN fs : fs[x].prio <= fs[y].prio} IN
       UNION {{<<fs[x]>> \o o : o \in Orders(SubSeq(fs, 1, x - 1) \o SubSeq(fs, x + 1, Len(fs)))} : x \in m}
Filters(st) == SelectSeq(st.fl, LAMBDA x : Active(st, x))

\* -------- prompt codes
RECURSIVE PlusText(_)
PlusText(n) == IF n <= 0 THEN <<>> ELSE <<"+">> \o PlusText(n - 1)
CodeText(c) == CASE c \in {"A", "a"} -> "&" [] c \in {"B", "b"} -> "|" [] c \in {"C", "c"} -> "(" [] c \in {"F", "f"} -> ")"
                 [] c \in {"G", "g"} -> ">" [] c \in {"L", "l"} -> "<" [] c \in {"Q", "q"} -> "=" [] c \in {"S", "s"} -> " "
                 [] c = "$" -> "$" [] OTHER -> ""
\* flag: 0 plain, 1 a single line (right side), 2 not the depth of pushd.
Expand(in, flag, cwd, depth) ==
  LET t == Ch(in)
      RECURSIVE go(_, _, _, _)
      go(i, out, plus, trim) ==
        IF i > Len(t) THEN [ok |-> TRUE, out |-> IF trim THEN TrimR(out, {" "}) ELSE out]
        ELSE IF flag = 1 /\ t[i] \in {"\r", "\n"} THEN [ok |-> TRUE, out |-> IF trim THEN TrimR(out, {" "}) ELSE out]
        ELSE IF t[i] # "$" THEN go(i + 1, Append(out, t[i]), plus, FALSE)
        ELSE LET c == At(t, i + 1) IN
          CASE flag = 1 /\ c = "_" -> [ok |-> TRUE, out |-> out]
            [] c = "_" -> go(i + 2, out \o <<"\r", "\n">>, plus, FALSE)
            [] c \in {"E", "e"} -> go(i + 2, Append(out, "ESC"), plus, FALSE)
            [] c \in {"H", "h"} -> go(i + 2, IF out = <<>> THEN out ELSE SubSeq(out, 1, Len(out) - 1), plus, FALSE)
            [] c \in {"M", "m"} -> go(i + 2, out, plus, flag = 1)
            [] c \in {"N", "n"} -> go(i + 2, Append(out, Ch(cwd)[1]), plus, FALSE)
            [] c \in {"P", "p"} -> go(i + 2, out \o Ch(cwd), plus, FALSE)
            [] c = "+" -> IF flag = 2 THEN (IF plus > 0 THEN [ok |-> FALSE, out |-> out] ELSE go(i + 2, out, plus + 1, FALSE))
                          ELSE go(i + 2, out \o PlusText(depth), plus, FALSE)
            [] OTHER -> go(i + 2, IF CodeText(c) = "" THEN out ELSE Append(out, CodeText(c)), plus, FALSE)
  IN IF t = <<>> THEN [ok |-> FALSE, out |-> <<>>] ELSE go(1, <<>>, 0, FALSE)
\* "ESC" stands for the escape character.
Text(out, esc) == Str([x \in DOMAIN out |-> IF out[x] = "ESC" THEN esc ELSE out[x]])
Expanded(st, in, flag) == Text(Expand(in, flag, st.cwd, st.depth).out, st.esc)

\* -------- what is shown
Contains(t, x) == \E i \in 1..(Len(t) - Len(x) + 1) : SubSeq(t, i, i + Len(x) - 1) = x
\* The last line of the prompt is surrounded.
Surround(text, pre, suf) ==
  LET c == Ch(text)  n == FindBack(c, Len(c), LAMBDA x : x = "\n") IN
  IF n = 0 \/ n = Len(c) THEN pre \o text \o suf
  ELSE Str(SubSeq(c, 1, n)) \o pre \o Str(SubSeq(c, n + 1, Len(c))) \o suf
Finish(st, text, right, sur) ==
  LET a == IF Contains(text, st.marks[1]) THEN "" ELSE st.codes[1]
      b == IF Contains(text, st.marks[2]) THEN "" ELSE st.codes[2]
      pre == Expanded(st, a \o st.codes[3] \o sur[1], 0)
      suf == Expanded(st, sur[2] \o b, 0)
  IN [text |-> Surround(text, pre, suf), right |-> IF right = "" THEN "" ELSE Expanded(st, sur[3], 1) \o right \o Expanded(st, sur[4], 1)]

\* -------- coroutines of prompt filters
Steps(st, key) == IF key \in DOMAIN st.body THEN st.body[key] ELSE <<"r">>
NewCo == [pc |-> 1, live |-> TRUE, flag |-> "no", res |-> ""]
Cor(st, key, c) == [st EXCEPT !.co = (key :> c) @@ @]
RECURSIVE Turn(_, _, _, _, _)
\* The coroutine goes on until it yields or ends.
Turn(st, key, how, log, again) ==
  LET c == st.co[key]  ss == Steps(st, key)
      done(res) == Cor(st, key, [c EXCEPT !.live = FALSE, !.flag = IF how = "1" THEN "yes" ELSE "maybe", !.res = res])
      next == Cor(st, key, [c EXCEPT !.pc = @ + 1])
  IN IF c.pc > Len(ss) THEN [st |-> done(""), log |-> Append(log, <<"b", key, ToString(c.pc), how>>), again |-> again]
     ELSE LET o == ss[c.pc]  l == Append(log, <<"b", key, ToString(c.pc), how>>) IN
       CASE o = "y" -> [st |-> next, log |-> l, again |-> again]
         [] o = "e" \/ (o = "f" /\ how = "0") -> [st |-> Cor(st, key, [c EXCEPT !.live = FALSE]), log |-> l, again |-> again]
         [] o = "f" -> Turn(next, key, how, l, TRUE)
         [] o = "n" -> [st |-> done(""), log |-> l, again |-> again]
         [] o = "r" -> [st |-> done("R" \o key), log |-> l, again |-> again]
RECURSIVE AtOnce(_, _, _, _)
\* Without asynchronous filtering it runs to its end, within reason.
AtOnce(st, key, n, log) ==
  IF n = 0 \/ ~st.co[key].live THEN [st |-> Cor(st, key, [st.co[key] EXCEPT !.live = FALSE]), log |-> log]
  ELSE LET r == Turn(st, key, "0", log, FALSE) IN AtOnce(r.st, key, n - 1, r.log)

\* -------- one function of a filter: its codes, in order
RECURSIVE Call(_, _, _, _, _, _)
Call(st, id, cs, x, trans, log) ==
  LET R(ret, on) == [st |-> st, log |-> log, ret |-> ret, on |-> on, err |-> FALSE]
      Nil(on) == [st |-> st, log |-> log, ret |-> NoText, on |-> on, err |-> FALSE]
      rest == Tail(cs)
  IN IF cs = <<>> THEN Nil(TRUE)
     ELSE LET o == cs[1] IN
       CASE o = "a" -> Call(st, id, rest, x \o id, trans, log)
         [] o = "p" -> Call(st, id, rest, id \o x, trans, log)
         [] o = "z" -> Call(st, id, rest, id, trans, log)
         [] o = "l" -> Call(st, id, rest, x \o "\n" \o id, trans, log)
         [] o = "k" -> Call(st, id, rest, x \o "\n", trans, log)
         [] o = "q" -> Call(st, id, rest, st.marks[1] \o st.bel \o x, trans, log)
         [] o = "w" -> Call(st, id, rest, x \o st.marks[2] \o st.bel, trans, log)
         [] o = "e" -> [st |-> st, log |-> log, ret |-> NoText, on |-> TRUE, err |-> TRUE]
         [] o = "." \/ o = "T" -> R(<<x>>, TRUE)
         [] o = "!" -> R(<<x>>, FALSE)
         [] o = "n" -> Nil(TRUE)
         [] o = "N" -> Nil(FALSE)
         [] OTHER -> LET key == id \o "." \o o IN
              IF key \in DOMAIN st.co THEN Call(st, id, rest, x \o (IF st.co[key].res = "" THEN "-" ELSE st.co[key].res), trans, log)
              ELSE LET n == Cor(st, key, NewCo) IN
                IF st.async /\ ~trans THEN Call(n, id, rest, x \o "-", trans, log)
                ELSE LET r == AtOnce(n, key, 25, log) IN Call(r.st, id, rest, x \o (IF r.st.co[key].res = "" THEN "-" ELSE r.st.co[key].res), trans, r.log)

\* -------- filtering
S4(f, n) == IF n <= Len(f.s) /\ f.s[n] # "-" THEN f.s[n] ELSE ""
RECURSIVE Go(_, _, _, _, _, _, _)
\* [st, log, text, right, ok]; off: a transient filter declined.
Go(st, fs, text, right, sur, trans, log) ==
  LET R(ok, off, t, r) == [st |-> st, log |-> log, text |-> t, right |-> r, sur |-> sur, ok |-> ok, off |-> off] IN
  IF fs = <<>> THEN R(TRUE, FALSE, text, right)
  ELSE LET f == fs[1]
           lcs == IF trans THEN f.t ELSE f.f
           rcs == IF trans THEN f.u ELSE f.r
           lname == IF trans THEN "t" ELSE "f"
           rname == IF trans THEN "u" ELSE "r"
           Fail(s, l) == [st |-> s, log |-> l, text |-> "\nERROR IN LUA PROMPT FILTER\n" \o st.cwd \o ">", right |-> "", sur |-> sur, ok |-> FALSE, off |-> FALSE]
           Off(s, l) == [st |-> s, log |-> l, text |-> "", right |-> "", sur |-> sur, ok |-> FALSE, off |-> TRUE]
           lc == IF f.old /\ ~trans THEN [st |-> st, log |-> Append(log, <<"c", f.id, "f", text>>), ret |-> <<text \o f.id>>, on |-> f.f # <<"!">>, err |-> FALSE]
                 ELSE IF lcs = <<>> \/ f.old THEN [st |-> st, log |-> log, ret |-> NoText, on |-> TRUE, err |-> ~trans]
                 ELSE Call(st, f.id, lcs, text, trans, Append(log, <<"c", f.id, lname, text>>))
       IN IF lc.err THEN Fail(lc.st, lc.log)
          ELSE IF trans /\ lc.ret = NoText /\ ~lc.on THEN Off(lc.st, lc.log)
          ELSE
          LET t == IF lc.ret = NoText THEN text ELSE lc.ret[1]
              none == [st |-> lc.st, log |-> lc.log, ret |-> NoText, on |-> lc.on, err |-> FALSE]
              rc == IF ~lc.on \/ rcs = <<>> \/ f.old THEN none ELSE Call(lc.st, f.id, rcs, right, trans, Append(lc.log, <<"c", f.id, rname, right>>))
          IN IF rc.err THEN Fail(rc.st, rc.log)
             ELSE IF lc.on /\ trans /\ rc.ret = NoText /\ ~rc.on THEN Off(rc.st, rc.log)
             ELSE
             LET r == IF rc.ret = NoText THEN right ELSE rc.ret[1]
                 s == <<sur[1] \o S4(f, 1), S4(f, 2) \o sur[2], sur[3] \o S4(f, 3), S4(f, 4) \o sur[4]>>
             IN Go(rc.st, IF rc.on THEN Tail(fs) ELSE <<>>, t, r, s, trans, rc.log)
Run(st, order, kind, p, r) ==
  LET trans == kind = "transient"
      g == Go(st, order, p, r, st.env, trans, <<<<"S", kind>>>>)
      f == IF g.off THEN [text |-> "", right |-> ""] ELSE Finish(g.st, g.text, g.right, g.sur)
  IN [st |-> g.st, text |-> f.text, log |-> Append(g.log, <<"F", f.text, f.right, IF g.ok THEN "1" ELSE "0">>)]
Runs(st, kind, p, r) == {Run(st, o, kind, p, r) : o \in Orders(Filters(st))}
Again(st) == IF st.async THEN Runs(st, "normal", st.p, st.r) ELSE {[st |-> st, text |-> "", log |-> <<>>]}

\* -------- modules
Has(log, x) == \E k \in DOMAIN log : log[k] = x
Load(st, m) ==
  IF m \notin DOMAIN st.mods \/ st.mods[m].loaded THEN [st |-> st, log |-> <<>>]
  ELSE [st |-> [st EXCEPT !.mods[m].loaded = TRUE, !.fl = @ \o st.mods[m].defs, !.cb = Append(@, m)], log |-> <<<<"load", m>>>>]
RECURSIVE LoadAll(_, _, _)
LoadAll(st, ms, log) == IF ms = <<>> THEN [st |-> st, log |-> log] ELSE LET r == Load(st, ms[1]) IN LoadAll(r.st, Tail(ms), log \o r.log)
Activate(st, m, how) ==
  IF how = st.act THEN [st |-> st, log |-> <<>>]
  ELSE LET a == IF m = "" THEN [st |-> st, log |-> <<>>] ELSE Load(st, m)
           off == IF st.active = "" THEN <<>> ELSE <<<<"off", st.active>>>>
           deps == IF m = "" THEN <<>> ELSE st.mods[m].deps
           b == LoadAll(a.st, deps, a.log \o off)
       IN [st |-> [b.st EXCEPT !.active = m, !.act = how, !.deps = {deps[x] : x \in DOMAIN deps}],
           log |-> b.log \o (IF m = "" THEN <<>> ELSE <<<<"on", m>>>>)]

\* -------- a new line; an idle pass
Begin(st, p, r) == [st EXCEPT !.co = [x \in {} |-> 0], !.p = p, !.r = r]
Called(st) == LET ms == SelectSeq(st.cb, LAMBDA m : m = st.active \/ m \in st.deps) IN [x \in DOMAIN ms |-> <<"m", ms[x]>>]
Line(st, p, r) == {[z EXCEPT !.log = Called(st) \o @] : z \in Runs(Begin(st, p, r), "normal", p, r)}
Live(st) == {k \in DOMAIN st.co : st.co[k].live}
Clear(st) == [st EXCEPT !.co = [k \in DOMAIN @ |-> [@[k] EXCEPT !.flag = "no"]]]
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(log, n) == SubSeq(log, n + 1, Len(log))
RECURSIVE Passes(_, _, _, _, _)
\* Every coroutine takes a turn, in any order; a refilter that one asks for
\* comes right after its turn, and one for all that ended comes at the end.
\* With a guide (log is to be explained) only the ways that lead to it.
Passes(st, todo, text, guided, log) ==
  IF todo # {} THEN
    UNION {LET t == Turn(st, k, "1", <<>>, FALSE)
               as == IF t.again THEN {[st |-> a.st, text |-> IF st.async THEN a.text ELSE text, log |-> t.log \o a.log] : a \in Again(t.st)}
                     ELSE {[st |-> t.st, text |-> text, log |-> t.log]}
           IN UNION {Passes(a.st, todo \ {k}, a.text, guided, IF guided THEN Drop(log, Len(a.log)) ELSE log \o a.log) : a \in {x \in as : guided => IsPre(x.log, log)}}
           : k \in IF guided THEN (IF log # <<>> /\ log[1][1] = "b" THEN {log[1][2]} \intersect todo ELSE {}) ELSE todo}
  ELSE LET must == \E k \in DOMAIN st.co : st.co[k].flag = "yes"
           may == must \/ \E k \in DOMAIN st.co : st.co[k].flag = "maybe"
           res == (IF may THEN {[st |-> a.st, text |-> IF st.async THEN a.text ELSE text, log |-> a.log] : a \in Again(Clear(st))} ELSE {})
                  \union (IF must THEN {} ELSE {[st |-> st, text |-> text, log |-> <<>>]})
       IN IF guided THEN {x \in res : x.log = log} ELSE {[x EXCEPT !.log = log \o @] : x \in res}
=============================================================================
