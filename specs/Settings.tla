------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Settings (clink/core/src/settings.cpp): typed values, the settings      *)
(* file, default settings, settings that come and go with scripts, and     *)
(* updating the file from a running session without disturbing it.         *)
(*                                                                         *)
(* A registered setting is [type, opts, def, desc, val, save]; val and def *)
(* are the text of the value ("True", "42", the option's name, the colour's *)
(* escape code).  The state is                                             *)
(*   [reg:    registered settings by name,                                 *)
(*    loaded: name -> [value, comment, saved], values from the file of     *)
(*            settings that nothing registered when it was loaded,         *)
(*    custom: name -> default value from the default_settings file,        *)
(*    files:  contents of "settings", "defaults" and "old" (or NoFile)].   *)
(***************************************************************************)
EXTENDS Chars, TLC

NoFile == <<"no file">>
Nothing == [x \in {} |-> <<>>]
With(f, k, v) == (k :> v) @@ f
Without(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])

(* Literals (evaluated once). *)
T_True == Ch("True")
T_False == Ch("False")
T_s2 == Ch(";2;")
T_s7 == Ch(";7")
T_s1 == Ch(";1")
T_s22 == Ch(";22")
T_s3 == Ch(";3")
T_s4 == Ch(";4")
T_reverse_ == Ch("reverse ")
T_bold_ == Ch("bold ")
T_nobold_ == Ch("nobold ")
T_italic_ == Ch("italic ")
T_underline_ == Ch("underline ")
T_bright_ == Ch("bright ")
T_default_ == Ch("default ")
T_on_ == Ch("on ")
T_on_default_ == Ch("on default ")
T_sgr_ == Ch("sgr ")
T_default_on_default_ == Ch("default on default ")
T_default == Ch("default")
T_clink_autoupdate == Ch("clink.autoupdate")
T_false == Ch("false")
T_off == Ch("off")
T_no == Ch("no")
T_true == Ch("true")
T_on == Ch("on")
T_yes == Ch("yes")
T_exec_match_style == Ch("exec_match_style")
T_exec_enable == Ch("exec.enable")
T_exec_path == Ch("exec.path")
T_exec_cwd == Ch("exec.cwd")
T_exec_dirs == Ch("exec.dirs")
T_strip_crlf_on_paste == Ch("strip_crlf_on_paste")
T_clink_paste_crlf == Ch("clink.paste_crlf")
T_crlf == Ch("crlf")
T_delete == Ch("delete")
T_space == Ch("space")
T_ansi_code_support == Ch("ansi_code_support")
T_terminal_emulation == Ch("terminal.emulation")
T_auto == Ch("auto")
T_native == Ch("native")
T_esc_clears_line == Ch("esc_clears_line")
T_terminal_raw_esc == Ch("terminal.raw_esc")
T_history_file_lines == Ch("history_file_lines")
T_history_save == Ch("history.save")
T_history_max_lines == Ch("history.max_lines")
T_boolean == Ch("boolean")
T_integer == Ch("integer")
T_string == Ch("string")
T_enum == Ch("enum")
T_color == Ch("color")
T_name_ == Ch("# name: ")
T_type_ == Ch("# type: ")
T_options_ == Ch("# options: ")
T_eq_ == Ch(" = ")

---------------------------------------------------------------------------
(* Values.                                                                 *)
True_ == T_True
False_ == T_False
Refused == [ok |-> FALSE, val |-> <<>>]
Value(v) == [ok |-> TRUE, val |-> v]

ParseBool(t) ==
  LET s == Trim(t) l == Str(Lower(s)) IN
  IF l \in {"true", "on", "yes"} THEN Value(True_)
  ELSE IF l \in {"false", "off", "no"} THEN Value(False_)
  ELSE IF At(s, 1) \in Digits THEN Value(IF Atoi(s) # 0 THEN True_ ELSE False_)
  ELSE Refused

ParseInt(t) == IF At(t, 1) \in Digits \cup {"-"} THEN Value(IntText(Atoi(t))) ELSE Refused

\* By index, or by name in any case; the first option that fits.
ParseEnum(opts, t) ==
  LET byInt == IF t # <<>> /\ \A i \in 1..Len(t) : t[i] \in Digits THEN Atoi(t) + 1 ELSE 0
      fits  == {i \in 1..Len(opts) : i = byInt \/ Lower(opts[i]) = Lower(t)}
  IN IF fits = {} THEN Refused ELSE Value(opts[CHOOSE i \in fits : \A j \in fits : i <= j])

\* Colours: [attributes] [bright] colour [on [bright] colour], or sgr code.
ColorNames == <<"black", "red", "green", "yellow", "blue", "magenta", "cyan", "white">>
Color3 == <<"bla", "red", "gre", "yel", "blu", "mag", "cya", "whi">>
ColorSet == {"bla", "red", "gre", "yel", "blu", "mag", "cya", "whi"}
ColorIndex(k) == (CHOOSE i \in 1..8 : Color3[i] = k) - 1
ColorChars == <<>> \o [i \in 1..8 |-> Ch(ColorNames[i]) \o <<" ">>]
HexSeq == DigitSeq \o <<"a", "b", "c", "d", "e", "f">>
HexSet == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"}
HexVal(c) == (CHOOSE i \in 1..16 : HexSeq[i] = c) - 1
Hex(tok) ==   \* <<r, g, b>> or <<>>
  LET l == Lower(tok) IN
  IF At(l, 1) # "#" \/ Len(l) \notin {4, 7} \/ \E i \in 2..Len(l) : l[i] \notin HexSet THEN <<>>
  ELSE IF Len(l) = 4 THEN [i \in 1..3 |-> HexVal(l[i + 1]) * 17]
  ELSE [i \in 1..3 |-> HexVal(l[2 * i]) * 16 + HexVal(l[2 * i + 1])]

None == [kind |-> "none", n |-> 0, rgb |-> <<>>]
Start == [fg |-> None, bg |-> None, on |-> FALSE, bold |-> -1, bright |-> FALSE, ul |-> -1, italic |-> FALSE, rev |-> FALSE, def |-> FALSE, bad |-> FALSE]
Cur(s) == IF s.on THEN s.bg ELSE s.fg
SetCur(s, c) == IF s.on THEN [s EXCEPT !.bg = c] ELSE [s EXCEPT !.fg = c]
Brighten(c, b) == IF c.kind = "name" /\ b THEN [c EXCEPT !.n = @ + 8] ELSE c
Bad(s) == [s EXCEPT !.bad = TRUE]
ColorToken(s, tok) ==
  LET k == Str(Lower(Take(tok, 3))) h == Hex(tok) IN
  IF s.bad THEN s
  ELSE IF Len(tok) = 2 /\ k = "on"
       THEN IF s.on THEN Bad(s) ELSE [s EXCEPT !.fg = Brighten(@, s.bright), !.on = TRUE, !.bright = FALSE, !.def = FALSE]
  ELSE IF k \in {"nor", "def"} THEN IF Cur(s) # None \/ s.def THEN Bad(s) ELSE [s EXCEPT !.def = TRUE]
  ELSE IF k \in {"bol", "nob", "dim"} THEN IF s.on \/ s.bold >= 0 THEN Bad(s) ELSE [s EXCEPT !.bold = IF k = "bol" THEN 1 ELSE 0]
  ELSE IF k = "bri" THEN IF Cur(s).kind = "hex" \/ s.bright THEN Bad(s) ELSE [s EXCEPT !.bright = TRUE]
  ELSE IF k \in {"und", "nou"} THEN IF s.on \/ s.ul >= 0 THEN Bad(s) ELSE [s EXCEPT !.ul = IF k = "und" THEN 1 ELSE 0]
  ELSE IF k = "ita" THEN IF s.on \/ s.italic THEN Bad(s) ELSE [s EXCEPT !.italic = TRUE]
  ELSE IF k = "rev" THEN IF s.rev THEN Bad(s) ELSE [s EXCEPT !.rev = TRUE]
  ELSE IF h # <<>> THEN IF Cur(s) # None \/ s.bright THEN Bad(s) ELSE SetCur(s, [kind |-> "hex", n |-> 0, rgb |-> h])
  ELSE IF k \in ColorSet THEN IF Cur(s) # None THEN Bad(s) ELSE SetCur(s, [kind |-> "name", n |-> ColorIndex(k), rgb |-> <<>>])
  ELSE Bad(s)
ColorCode(c, base) ==
  CASE c.kind = "none" -> <<>>
    [] c.kind = "name" -> <<";">> \o NatText(IF c.n >= 8 THEN c.n - 8 + base + 60 ELSE c.n + base)
    [] c.kind = "hex"  -> <<";">> \o NatText(base + 8) \o T_s2 \o NatText(c.rgb[1]) \o <<";">> \o NatText(c.rgb[2]) \o <<";">> \o NatText(c.rgb[3])
ParseColor(t) ==
  LET toks == Split(t, {" "}) IN
  IF t = <<>> THEN Value(<<>>)
  ELSE IF toks # <<>> /\ Str(Lower(toks[1])) \in {"ansi", "sgr"}
       THEN IF Len(toks) > 2 THEN Refused ELSE Value(IF Len(toks) = 2 THEN toks[2] ELSE <<>>)
  ELSE LET RECURSIVE go(_, _)
           go(s, k) == IF k > Len(toks) THEN s ELSE go(ColorToken(s, toks[k]), k + 1)
           s1 == go(Start, 1)
           s == SetCur(s1, Brighten(Cur(s1), s1.bright))
       IN IF s.bad THEN Refused
          ELSE Value(<<"0">> \o (IF s.rev THEN T_s7 ELSE <<>>)
                     \o (IF s.bold = 1 THEN T_s1 ELSE IF s.bold = 0 THEN T_s22 ELSE <<>>)
                     \o (IF s.italic THEN T_s3 ELSE <<>>) \o (IF s.ul = 1 THEN T_s4 ELSE <<>>)
                     \o ColorCode(s.fg, 30) \o ColorCode(s.bg, 40))

Num(tok) == IF \E i \in 1..Len(tok) : tok[i] \notin Digits THEN -1 ELSE Atoi(tok)
HexDig == DigitSeq \o <<"A", "B", "C", "D", "E", "F">>
HexDigit(n) == HexDig[n + 1]
Rgb(r, g, b) == <<"#", HexDigit(r \div 16), HexDigit(r % 16), HexDigit(g \div 16), HexDigit(g % 16), HexDigit(b \div 16), HexDigit(b % 16)>>
EndsWith(t, s) == Len(t) > Len(s) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
Chop(t, n) == SubSeq(t, 1, Len(t) - n)
\* A code as words; "sgr code" when it can't be said in words.
FormatColor(code, compat) ==
  LET toks == Split(code, {";"})
      name(x) == ColorChars[(x % 10) + 1]
      rgb(k) == k + 4 <= Len(toks) /\ Num(toks[k + 1]) = 2 /\ \A j \in 2..4 : Num(toks[k + j]) \in 0..255
      rgbText(k) == Rgb(Num(toks[k + 2]), Num(toks[k + 3]), Num(toks[k + 4])) \o <<" ">>
      Nope == <<"?">>
      \* stage: 0 reset, 1 reverse, 2 bold, 3 italic, 4 underline, 5 foreground, 6 background, 7 nothing more
      RECURSIVE go(_, _, _, _)
      go(k, stage, fg, out) ==
        IF k > Len(toks) THEN out
        ELSE LET x == Num(toks[k]) IN
          IF x < 0 \/ stage >= 7 \/ (stage = 0 /\ x # 0) THEN Nope
          ELSE IF x = 0 THEN IF stage > 0 THEN Nope ELSE go(k + 1, 1, fg, out)
          ELSE IF x = 7 THEN IF stage > 1 THEN Nope ELSE go(k + 1, 2, fg, out \o T_reverse_)
          ELSE IF x \in {1, 22} THEN IF stage > 2 THEN Nope ELSE go(k + 1, 3, fg, out \o (IF x = 1 THEN T_bold_ ELSE T_nobold_))
          ELSE IF x = 3 THEN IF stage > 3 THEN Nope ELSE go(k + 1, 4, fg, out \o T_italic_)
          ELSE IF x = 4 THEN IF stage > 4 THEN Nope ELSE go(k + 1, 5, fg, out \o T_underline_)
          ELSE IF x \in 30..37 \/ x \in 90..97 THEN IF stage > 5 THEN Nope ELSE go(k + 1, 6, TRUE, out \o (IF x >= 90 THEN T_bright_ ELSE <<>>) \o name(x))
          ELSE IF x = 38 /\ ~compat THEN IF stage > 5 \/ ~rgb(k) THEN Nope ELSE go(k + 5, 6, TRUE, out \o rgbText(k))
          ELSE IF x = 39 THEN IF stage > 5 THEN Nope ELSE go(k + 1, 6, TRUE, out \o T_default_)
          ELSE IF x \in 40..47 \/ x \in 100..107
               THEN IF stage > 6 THEN Nope ELSE go(k + 1, 7, fg, out \o (IF fg THEN <<>> ELSE T_default_) \o T_on_ \o (IF x >= 100 THEN T_bright_ ELSE <<>>) \o name(x))
          ELSE IF x = 48 /\ ~compat THEN IF stage > 6 \/ ~rgb(k) THEN Nope ELSE go(k + 5, 7, fg, out \o (IF fg THEN <<>> ELSE T_default_) \o T_on_ \o rgbText(k))
          ELSE IF x = 49 THEN IF stage > 6 THEN Nope ELSE go(k + 1, 7, fg, out \o T_on_default_)
          ELSE Nope
      o == go(1, 0, FALSE, <<>>)
  IN IF code = <<>> THEN <<>>
     ELSE IF o = Nope THEN T_sgr_ \o code
     ELSE IF o = <<>> \/ o = T_default_on_default_ THEN T_default
     ELSE TrimR(IF EndsWith(o, T_default_on_default_) THEN Chop(o, 19)
                ELSE IF EndsWith(o, T_on_default_) THEN Chop(o, 11) ELSE o, {" "})

Parse(type, opts, t) ==
  CASE type = "bool" -> ParseBool(t) [] type = "int" -> ParseInt(t) [] type = "enum" -> ParseEnum(opts, t)
    [] type = "color" -> ParseColor(t) [] type = "string" -> Value(t)
Descriptive(r, compat) == IF r.type = "color" THEN FormatColor(r.val, compat) ELSE r.val

---------------------------------------------------------------------------
(* Settings files.                                                         *)
\* Sequence of [name, value, comment].
FileEntries(text) ==
  LET lines == Split(text, {"\n", "\r"})
      \* the output of `clink set` is accepted too
      setOutput == \A k \in 1..Len(lines) : lines[k][1] # "#" /\ \A i \in 1..Len(lines[k]) : lines[k][i] # "="
      RECURSIVE go(_, _, _)
      go(k, was, comment0) ==
        IF k > Len(lines) THEN <<>>
        ELSE LET l == TrimL(lines[k], Spaces)
                 comment == IF was THEN comment0 ELSE <<>>
                 eq == Find(l, 1, LAMBDA c : c = "=")
                 e == IF eq <= Len(l) THEN eq ELSE IF setOutput THEN Find(l, 1, LAMBDA c : c = " ") ELSE Len(l) + 1
                 name == TrimR(SubSeq(l, 1, e - 1), Spaces)
                 value0 == TrimL(SubSeq(l, e + 1, Len(l)), Spaces)
                 v == Lower(Trim(value0))
                 value == IF Lower(name) # T_clink_autoupdate THEN value0
                          ELSE IF v \in {T_false, T_off, T_no} THEN <<"0">>
                          ELSE IF v \in {T_true, T_on, T_yes} THEN <<"1">> ELSE value0
             IN IF At(l, 1) = "#" THEN go(k + 1, TRUE, comment \o l \o <<"\n">>)
                ELSE IF e > Len(l) THEN go(k + 1, FALSE, comment)
                ELSE <<[name |-> name, value |-> value, comment |-> comment]>> \o go(k + 1, FALSE, comment)
  IN IF text = NoFile THEN <<>> ELSE go(1, FALSE, <<>>)

MaxName == 32
FindName(st, n) == LET l == Lower(n) IN
  IF l \in DOMAIN st.reg THEN l ELSE IF Len(l) > MaxName /\ SubSeq(l, 1, MaxName) \in DOMAIN st.reg THEN SubSeq(l, 1, MaxName) ELSE <<>>
IsRegistered(st, n) == FindName(st, n) # <<>> /\ FindName(st, n) \in DOMAIN st.reg

\* The value when nothing is set: the default settings file's, if it has a
\* good one, or the setting's own.
DefaultVal(st, n) == LET r == st.reg[n] IN
  IF n \in DOMAIN st.custom /\ Parse(r.type, r.opts, st.custom[n]).ok THEN Parse(r.type, r.opts, st.custom[n]).val ELSE r.def
ResetOne(st, n) == LET v == DefaultVal(st, n) IN [st EXCEPT !.reg[n].val = v, !.reg[n].save = v # st.reg[n].def]
ResetAll(st) == [st EXCEPT !.reg = [n \in DOMAIN st.reg |-> LET v == DefaultVal(st, n) IN [st.reg[n] EXCEPT !.val = v, !.save = v # st.reg[n].def]]]

\* [st, ok]
SetOne(st, n, text) == LET r == st.reg[n] p == Parse(r.type, r.opts, text) IN
  IF p.ok THEN [st |-> [st EXCEPT !.reg[n].val = p.val, !.reg[n].save = TRUE], ok |-> TRUE] ELSE [st |-> st, ok |-> FALSE]
NoComment == <<"none">>
SetByName(st, n, text, comment) ==
  IF IsRegistered(st, n) THEN SetOne(st, FindName(st, n), text)
  ELSE LET c == IF comment # NoComment THEN comment ELSE IF n \in DOMAIN st.loaded THEN st.loaded[n].comment ELSE <<>>
       IN [st |-> [st EXCEPT !.loaded = With(@, n, [value |-> text, comment |-> c, saved |-> FALSE])], ok |-> TRUE]
ClearByName(st, n) ==
  IF IsRegistered(st, n) THEN ResetOne(st, FindName(st, n)) ELSE [st EXCEPT !.loaded = Without(@, n)]

\* Settings of older versions.
Pair(n, v) == <<[n |-> n, v |-> v]>>
B(x) == IF x THEN <<"1">> ELSE <<"0">>
Renamed == [x \in {"ctrld_exits", "space_prefix_match_files", "terminate_autoanswer", "history_ignore_space", "history_dupe_mode", "history_io", "history_expand_mode", "use_altgr_substitute"} |->
  CASE x = "ctrld_exits" -> "cmd.ctrld_exits" [] x = "space_prefix_match_files" -> "exec.space_prefix" [] x = "terminate_autoanswer" -> "cmd.auto_answer"
    [] x = "history_ignore_space" -> "history.ignore_space" [] x = "history_dupe_mode" -> "history.dupe_mode" [] x = "history_io" -> "history.shared"
    [] x = "history_expand_mode" -> "history.expand_mode" [] x = "use_altgr_substitute" -> "terminal.use_altgr_substitute"]
Migrated(name, value) ==
  LET l == Lower(name) ls == Str(l) x == Atoi(value) IN
  IF l = T_exec_match_style
  THEN Pair(T_exec_enable, B(x >= 0)) \o (IF x >= 0 THEN Pair(T_exec_path, B(TRUE)) \o Pair(T_exec_cwd, B(x >= 1)) \o Pair(T_exec_dirs, B(x >= 2)) ELSE <<>>)
  ELSE IF l = T_strip_crlf_on_paste THEN Pair(T_clink_paste_crlf, CASE x = 0 -> T_crlf [] x = 1 -> T_delete [] x = 2 -> T_space [] OTHER -> value)
  ELSE IF l = T_ansi_code_support THEN Pair(T_terminal_emulation, IF x # 0 THEN T_auto ELSE T_native)
  ELSE IF l = T_esc_clears_line THEN Pair(T_terminal_raw_esc, B(x = 0))
  ELSE IF l = T_history_file_lines
  THEN Pair(T_history_save, B(x >= 0)) \o (IF x > 0 THEN Pair(T_history_max_lines, value) ELSE IF x = 0 THEN Pair(T_history_max_lines, <<"0">>) ELSE <<>>)
  ELSE LET k == {y \in DOMAIN Renamed : y = ls} IN IF k = {} THEN <<>> ELSE Pair(Ch(Renamed[CHOOSE y \in k : TRUE]), value)

---------------------------------------------------------------------------
(* Operations.                                                             *)
TypeName(t) == (CASE t = "bool" -> T_boolean [] t = "int" -> T_integer [] t = "string" -> T_string [] t = "enum" -> T_enum [] t = "color" -> T_color)
Join(opts) == LET RECURSIVE go(_) go(k) == IF k > Len(opts) THEN <<>> ELSE (IF k > 1 THEN <<",">> ELSE <<>>) \o opts[k] \o go(k + 1) IN go(1)
NL == <<"\n">>
\* What save writes, and the state after it.
Save(st) ==
  LET names == SortTexts({n \in DOMAIN st.reg : st.reg[n].save})
      block(n) == LET r == st.reg[n] IN
        T_name_ \o r.desc \o NL \o T_type_ \o TypeName(r.type) \o NL
        \o (IF r.type = "enum" THEN T_options_ \o Join(r.opts) \o NL ELSE <<>>)
        \o n \o T_eq_ \o Descriptive(r, TRUE) \o NL \o NL
      extra == SortTexts({n \in DOMAIN st.loaded : n \notin DOMAIN st.reg})
      extraBlock(n) == st.loaded[n].comment \o n \o T_eq_ \o st.loaded[n].value \o NL \o NL
  IN [st EXCEPT !.files.settings = Flat([k \in 1..Len(names) |-> block(names[k])])
        \o (IF extra = <<>> THEN <<>> ELSE NL \o NL \o Flat([k \in 1..Len(extra) |-> extraBlock(extra[k])]))]

FirstWins(es) == LET RECURSIVE go(_, _) go(k, f) == IF k > Len(es) THEN f ELSE go(k + 1, IF es[k].name \in DOMAIN f THEN f ELSE With(f, es[k].name, es[k].value)) IN go(1, Nothing)
RECURSIVE SetAll(_, _, _)
SetAll(st, es, k) == IF k > Len(es) THEN st ELSE SetAll(SetByName(st, es[k].name, es[k].value, es[k].comment).st, es, k + 1)
MigrateAll(es) == Flat([k \in 1..Len(es) |-> LET m == Migrated(es[k].name, es[k].value) IN [j \in 1..Len(m) |-> [name |-> m[j].n, value |-> m[j].v, comment |-> NoComment]]])
Load(st) ==
  LET s1 == ResetAll([st EXCEPT !.custom = FirstWins(FileEntries(st.files.defaults)), !.loaded = Nothing])
  IN IF st.files.settings # NoFile THEN SetAll(s1, FileEntries(st.files.settings), 1)
     ELSE IF st.files.old # NoFile THEN Save(SetAll(s1, MigrateAll(FileEntries(st.files.old)), 1))
     ELSE s1

\* A script adds a setting: it takes the value the file had for it.
Register(st, n0, type, opts, def, desc) ==
  LET n == SubSeq(n0, 1, Min2(Len(n0), MaxName))
      d == IF type = "color" THEN ParseColor(def).val ELSE def
      s1 == ResetOne([st EXCEPT !.reg = With(@, n, [type |-> type, opts |-> opts, def |-> d, desc |-> desc, val |-> d, save |-> FALSE])], n)
  IN IF n \in DOMAIN st.loaded THEN SetOne(s1, n, st.loaded[n].value).st ELSE s1
Unregister(st, n) == [st EXCEPT !.reg = Without(@, n)]

\* A change to the file (by a running session): what the file says, with the
\* change; the session's own values stay.
Rollback(st, after) == [after EXCEPT !.reg = [n \in DOMAIN st.reg |-> [st.reg[n] EXCEPT !.save = TRUE,
                          !.val = IF st.reg[n].type = "color" THEN ParseColor(FormatColor(st.reg[n].val, FALSE)).val ELSE @]], !.loaded = st.loaded]
\* changes: sequence of [n, set, v]
RECURSIVE Apply(_, _, _)
Apply(st, changes, k) ==
  IF k > Len(changes) THEN st
  ELSE LET c == changes[k] IN
       Apply(IF c.set THEN SetByName(st, c.n, c.v, NoComment).st ELSE ClearByName(st, c.n), changes, k + 1)
UpdateFile(st, changes) == Rollback(st, Save(Apply(Load(st), changes, 1)))
\* One setting: nothing is written if the value is refused.
UpdateOne(st, c) ==
  LET l == Load(st)
      r == IF c.set THEN SetByName(l, c.n, c.v, NoComment) ELSE [st |-> ClearByName(l, c.n), ok |-> TRUE]
  IN [st |-> Rollback(st, IF r.ok THEN Save(r.st) ELSE r.st), ok |-> r.ok]

\* Sections of an ini file (themes): sequence of [n, v, s], valid.
ParseIni(text) ==
  LET lines == Split(text, {"\n", "\r"})
      starts(l, p) == Str(Lower(Take(l, Len(p)))) = p
      RECURSIVE go(_, _, _, _)
      go(k, sec, valid, acc) ==
        IF k > Len(lines) THEN [ok |-> valid, out |-> acc]
        ELSE LET l == TrimL(lines[k], Spaces) IN
             IF At(l, 1) \in {"#", ";"} THEN go(k + 1, sec, valid, acc)
             ELSE IF At(l, 1) = "["
                  THEN IF starts(l, "[set]") THEN go(k + 1, "set", TRUE, acc)
                       ELSE IF starts(l, "[clear]") THEN go(k + 1, "clear", TRUE, acc)
                       ELSE IF starts(l, "[preferred]") THEN go(k + 1, "preferred", TRUE, acc)
                       ELSE go(k + 1, "", valid, acc)
             ELSE IF sec = "" THEN go(k + 1, sec, valid, acc)
             ELSE IF sec = "clear" THEN go(k + 1, sec, valid, Append(acc, [n |-> Trim(l), v |-> <<>>, s |-> sec]))
             ELSE LET e == Find(l, 1, LAMBDA c : c = "=") IN
                  IF e > Len(l) THEN [ok |-> FALSE, out |-> acc]
                  ELSE go(k + 1, sec, valid, Append(acc, [n |-> Trim(SubSeq(l, 1, e - 1)), v |-> TrimL(SubSeq(l, e + 1, Len(l)), Spaces), s |-> sec]))
  IN go(1, "", FALSE, <<>>)

Fresh == [reg |-> Nothing, loaded |-> Nothing, custom |-> Nothing, files |-> [settings |-> NoFile, defaults |-> NoFile, old |-> NoFile]]
=============================================================================
