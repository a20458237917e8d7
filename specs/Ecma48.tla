------------------------------ MODULE Ecma48 ------------------------------
(* Escape codes in text: how a text splits into visible characters, control *)
(* characters and escape codes; what the codes mean; how much room a text   *)
(* takes; and what the emulated terminal does with it.  Texts are sequences *)
(* of characters; non-printable and non-ASCII characters are named uXX.     *)
EXTENDS Chars
C0Seq == <<"u00", "u01", "u02", "u03", "u04", "u05", "u06", "u07", "u08", "u09", "u0a", "u0b", "u0c", "u0d", "u0e", "u0f", "u10", "u11", "u12", "u13", "u14", "u15", "u16", "u17", "u18", "u19", "u1a", "u1b", "u1c", "u1d", "u1e", "u1f">>
C0Set == {"u00", "u01", "u02", "u03", "u04", "u05", "u06", "u07", "u08", "u09", "u0a", "u0b", "u0c", "u0d", "u0e", "u0f", "u10", "u11", "u12", "u13", "u14", "u15", "u16", "u17", "u18", "u19", "u1a", "u1b", "u1c", "u1d", "u1e", "u1f"}
C1Seq == <<"u80", "u81", "u82", "u83", "u84", "u85", "u86", "u87", "u88", "u89", "u8a", "u8b", "u8c", "u8d", "u8e", "u8f", "u90", "u91", "u92", "u93", "u94", "u95", "u96", "u97", "u98", "u99", "u9a", "u9b", "u9c", "u9d", "u9e", "u9f">>
C1Set == {"u80", "u81", "u82", "u83", "u84", "u85", "u86", "u87", "u88", "u89", "u8a", "u8b", "u8c", "u8d", "u8e", "u8f", "u90", "u91", "u92", "u93", "u94", "u95", "u96", "u97", "u98", "u99", "u9a", "u9b", "u9c", "u9d", "u9e", "u9f"}
ESC == "u1b"
BEL == "u07"
ST8 == "u9c"
Wide == {"u4e2d", "u6587", "uff21", "u1f600", "u1f680"}
Num(c) == IF c \in AsciiSet THEN Code(c)
          ELSE IF c \in C0Set THEN (CHOOSE i \in 1..32 : C0Seq[i] = c) - 1
          ELSE IF c \in C1Set THEN (CHOOSE i \in 1..32 : C1Seq[i] = c) + 127
          ELSE 1000
Between(c, a, b) == c \in AsciiSet /\ Code(c) >= a /\ Code(c) <= b
ParamByte(c) == Between(c, 48, 63)
InterByte(c) == Between(c, 32, 47)
FinalByte(c) == Between(c, 64, 126)

----------------------------------------------------------------------------
\* One item starting at character i: its kind, code, where it ends (the first
\* position behind it) and whether it is to be shown at all:
\*   "item" : characters i .. e-1 are a piece
\*   "drop" : characters i .. e-1 are the beginning of a code that turned out
\*            to be malformed; nothing is reported for them
\*   "wait" : the text ends inside a code
Item(what, k, c, e) == [what |-> what, k |-> k, c |-> c, e |-> e]
\* CSI: parameters, then intermediates, then the final character.
Csi(t, i, b) ==
  LET p == Find(t, b, LAMBDA c : ~ParamByte(c))
      q == Find(t, p, LAMBDA c : ~InterByte(c))
  IN IF q > Len(t) THEN Item("wait", "", 0, q)
     ELSE IF FinalByte(t[q]) THEN Item("item", "c1", 91, q + 1) ELSE Item("drop", "", 0, q)
\* Command strings: up to ST or BEL; ESC ] inside opens a nested one.
CmdStr(t, i, b, code) ==
  LET RECURSIVE go(_, _)
      go(k, nest) ==
        IF k > Len(t) THEN Item("wait", "", 0, k)
        ELSE LET c == t[k] IN
          IF c = ESC THEN
            IF k + 1 > Len(t) THEN Item("wait", "", 0, k + 1)
            ELSE IF t[k + 1] = "]" THEN go(k + 2, nest + 1)
            ELSE IF t[k + 1] = "\\" THEN (IF nest = 0 THEN Item("item", "c1", code, k + 2) ELSE go(k + 2, nest - 1))
            ELSE Item("drop", "", 0, k + 1)
          ELSE IF c = ST8 THEN Item("item", "c1", code, k + 1)
          ELSE IF c = BEL THEN (IF nest = 0 THEN Item("item", "c1", code, k + 1) ELSE go(k + 1, nest - 1))
          ELSE IF c \in C0Set /\ ~(Num(c) \in 8..13) THEN Item("drop", "", 0, k)
          ELSE go(k + 1, nest)
  IN go(b, 0)
\* SOS: any characters up to ST.
CharStr(t, i, b) ==
  LET k == Find(t, b, LAMBDA c : c \in {ESC, ST8})
  IN IF k > Len(t) THEN Item("wait", "", 0, k)
     ELSE IF t[k] = ST8 THEN Item("item", "c1", 88, k + 1)
     ELSE IF k + 1 > Len(t) THEN Item("wait", "", 0, k + 1)
     ELSE IF t[k + 1] = "\\" THEN Item("item", "c1", 88, k + 2) ELSE Item("drop", "", 0, k + 1)
C1(t, i, b, code) ==
  CASE code = 91 -> Csi(t, i, b)
    [] code \in {80, 93, 94, 95} -> CmdStr(t, i, b, code)
    [] code = 88 -> CharStr(t, i, b)
    [] OTHER -> Item("item", "c1", code, b)
CharsEnd(t, i) == Find(t, i, LAMBDA c : c \in C0Set)
First(t, i) ==
  LET c == t[i] IN
  IF c = ESC THEN
    IF i + 1 > Len(t) THEN Item("wait", "", 0, i + 1)
    ELSE LET d == t[i + 1] IN
      IF Between(d, 64, 95) THEN C1(t, i, i + 2, Code(d))
      ELSE IF Between(d, 96, 126) \/ d = "u7f" THEN Item("item", "icf", IF d = "u7f" THEN 127 ELSE Code(d), i + 2)
      ELSE Item("item", "chars", 0, CharsEnd(t, i + 2))
  ELSE IF c \in C0Set THEN Item("item", "c0", Num(c), i + 1)
  ELSE IF c \in C1Set THEN C1(t, i, i + 1, Num(c) - 64)
  ELSE Item("item", "chars", 0, CharsEnd(t, i + 1))

Piece(k, c, s) == [k |-> k, c |-> c, s |-> s]
Pieces(t) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(t) THEN <<>>
               ELSE LET f == First(t, i) IN
                    CASE f.what = "item" -> <<Piece(f.k, f.c, SubSeq(t, i, f.e - 1))>> \o go(f.e)
                      [] f.what = "drop" -> go(f.e)
                      [] f.what = "wait" -> <<>>
  IN go(1)
RECURSIVE Merged(_)      \* adjacent text as one piece
Merged(ps) == IF Len(ps) < 2 THEN ps
              ELSE IF ps[1].k = "chars" /\ ps[2].k = "chars" THEN Merged(<<Piece("chars", 0, ps[1].s \o ps[2].s)>> \o SubSeq(ps, 3, Len(ps)))
              ELSE <<ps[1]>> \o Merged(Tail(ps))

----------------------------------------------------------------------------
\* Meaning of a CSI: private marker, parameters, intermediate, final.
Body(s) == IF s[1] = ESC THEN SubSeq(s, 3, Len(s)) ELSE Tail(s)
Decode(s, max) ==
  LET b == Body(s)
      priv == b # <<>> /\ Between(b[1], 60, 63)
      r == IF priv THEN Tail(b) ELSE b
      digs == SelectSeq(r, LAMBDA c : Between(c, 48, 57) \/ c = ";")
      any == \E i \in 1..Len(r) : Between(r[i], 48, 59)
      RECURSIVE go(_, _, _)
      go(i, v, ps) == IF i > Len(digs) THEN (IF any THEN Append(ps, v) ELSE ps)
                      ELSE IF digs[i] = ";" THEN go(i + 1, 0, Append(ps, v))
                      ELSE go(i + 1, v * 10 + DigitVal(digs[i]), ps)
      inters == SelectSeq(r, InterByte)
      RECURSIVE lastF(_)
      lastF(i) == IF i = 0 THEN 0 ELSE IF FinalByte(r[i]) THEN Code(r[i]) ELSE lastF(i - 1)
  IN [priv |-> priv, p |-> Take(go(1, 0, <<>>), max), inter |-> IF inters = <<>> THEN 0 ELSE Code(inters[Len(inters)]),
      final |-> lastF(Len(r))]

----------------------------------------------------------------------------
\* Room: control characters take one cell, wide characters two.
Width(c) == IF c \in Wide THEN 2 ELSE 1
Cells(s) == LET RECURSIVE n(_) n(i) == IF i = 0 THEN 0 ELSE n(i - 1) + Width(s[i]) IN n(Len(s))
CellCount(t) == LET ps == Pieces(t)
                    RECURSIVE n(_)
                    n(i) == IF i = 0 THEN 0 ELSE n(i - 1) + (IF ps[i].k = "chars" THEN Cells(ps[i].s) ELSE 0)
                IN n(Len(ps))

\* Operating system commands: OSC 0/1/2 ; title and OSC 9 ; 8 ; "variable".
EnvValue(name) == IF Lower(name) = <<"v", "d", "r", "v", "_", "x">> THEN <<"v", "ue9", "u4e2d">> ELSE <<>>
Unquoted(s) == IF Len(s) >= 2 /\ s[1] = "\"" /\ s[Len(s)] = "\"" THEN SubSeq(s, 2, Len(s) - 1) ELSE s
StripEnd(s) == IF s = <<>> THEN s
               ELSE IF s[Len(s)] = BEL THEN SubSeq(s, 1, Len(s) - 1)
               ELSE IF Len(s) > 1 /\ s[Len(s)] = "\\" /\ s[Len(s) - 1] = ESC THEN SubSeq(s, 1, Len(s) - 2) ELSE s
RECURSIVE Osc(_)
Osc(s) ==
  LET b == Body(s) IN
  IF At(b, 1) \in {"0", "1", "2"} /\ At(b, 2) = ";" THEN
    LET t == Unquoted(StripEnd(SubSeq(b, 3, Len(b))))
        ps == Pieces(t)
        RECURSIVE cat(_)
        cat(i) == IF i > Len(ps) THEN <<>>
                  ELSE (IF ps[i].k = "c1" /\ ps[i].c = 93
                        THEN LET o == Osc(ps[i].s) IN IF o.k = "value" THEN o.s ELSE <<>>
                        ELSE ps[i].s) \o cat(i + 1)
    IN [k |-> "title", s |-> cat(1)]
  ELSE IF Take(b, 4) = <<"9", ";", "8", ";">> THEN
    LET r == SubSeq(b, 5, Len(b))
        e == LET RECURSIVE go(_) go(i) == IF i > Len(r) THEN i ELSE IF r[i] = BEL \/ (r[i] = ESC /\ At(r, i + 1) = "\\") THEN i ELSE go(i + 1) IN go(1)
    IN [k |-> "value", s |-> EnvValue(Unquoted(SubSeq(r, 1, e - 1)))]
  ELSE [k |-> "other", s |-> <<>>]

----------------------------------------------------------------------------
\* Processing a text for display by Readline: invisible parts bracketed;
\* environment values put in; as plain text; or with the colours left out.
Soh == "u01"
Stx == "u02"
Bracket(on, s) == IF on THEN <<Soh>> \o s \o <<Stx>> ELSE s
Kept == {3, 4, 9, 21, 23, 24, 29, 53, 55, 73, 74, 75}
StylesOnly(ps) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(ps) THEN <<>>
               ELSE IF ps[i] = 0 THEN <<";", "2", "3", ";", "2", "4", ";", "2", "9">> \o go(i + 1)
               ELSE IF ps[i] \in Kept THEN <<";">> \o NatText(ps[i]) \o go(i + 1)
               ELSE IF ps[i] \in {38, 48, 58} /\ i < Len(ps) /\ ps[i + 1] = 2 THEN go(i + 5)
               ELSE IF ps[i] \in {38, 48, 58} /\ i < Len(ps) /\ ps[i + 1] = 5 THEN go(i + 3)
               ELSE go(i + 1)
  IN go(1)
\* flags: bracket 1, apply title 2, plain text 4, colourless 8
Flag(f, b) == (f \div b) % 2 = 1
Verbatim(p, f) ==
  IF Flag(f, 4) THEN <<>>
  ELSE IF Flag(f, 8) /\ p.c = 91 THEN
    LET d == Decode(p.s, 32)
        st == StylesOnly(IF d.p = <<>> THEN <<0>> ELSE d.p)
    IN IF d.final = 109 /\ st # <<>> THEN Bracket(Flag(f, 1), <<ESC, "[">> \o Tail(st) \o <<"m">>) ELSE <<>>
  ELSE Bracket(Flag(f, 1), p.s)
\* A character of text outside escape codes.
Plain(s, f) == Flat([i \in 1..Len(s) |-> IF s[i] = BEL THEN Bracket(Flag(f, 1), <<BEL>>) ELSE <<s[i]>>])
PlainCells(s) == Cells(SelectSeq(s, LAMBDA c : c # BEL))
ProcPiece(p, f) ==   \* <<output, cells, title>>
  IF p.k = "c1" THEN
    IF p.c = 93 THEN
      LET o == Osc(p.s) IN
      CASE o.k = "value" -> <<o.s, Cells(o.s), <<>>>>
        [] o.k = "title" /\ Flag(f, 2) -> <<<<>>, 0, o.s>>
        [] OTHER -> <<Verbatim(p, f), 0, <<>>>>
    ELSE <<Verbatim(p, f), 0, <<>>>>
  ELSE <<Plain(p.s, f), PlainCells(p.s), <<>>>>
Proc(t, f) == LET ps == Pieces(t) IN <<>> \o [i \in 1..Len(ps) |-> ProcPiece(ps[i], f)]
ProcOut(r) == Flat([i \in 1..Len(r) |-> r[i][1]])
ProcCells(r) == LET RECURSIVE n(_) n(i) == IF i = 0 THEN 0 ELSE n(i - 1) + r[i][2] IN n(Len(r))

----------------------------------------------------------------------------
\* Wrapping plain text at word ends: as many words as fit; a word longer than
\* the line is broken.
Wrapped(t0, w) ==
  LET t == TrimR(TrimL(t0, {" "}), {" "})
      RECURSIVE fit(_, _)      \* the last position that fits from i on
      fit(i, n) == IF i > Len(t) \/ n + Width(t[i]) > w THEN i - 1 ELSE fit(i + 1, n + Width(t[i]))
      RECURSIVE lines(_)
      lines(i) ==
        IF i > Len(t) THEN <<>>
        ELSE LET e == fit(i, 0) IN
             IF e = Len(t) THEN <<SubSeq(t, i, e)>>
             ELSE LET sp == FindBack(SubSeq(t, 1, e + 1), e + 1, LAMBDA c : c = " ")  \* the last space that may end the line
                      cut == IF sp > i THEN sp - 1 ELSE e
                      next == Find(t, cut + 1, LAMBDA c : c # " ")
                  IN <<TrimR(SubSeq(t, i, cut), {" "})>> \o lines(next)
  IN IF t = <<>> THEN <<<<>>>> ELSE lines(1)

----------------------------------------------------------------------------
\* The emulated terminal: what each piece asks of the screen.
Par(ps, i, d) == IF i <= Len(ps) THEN ps[i] ELSE d
Cube == <<0, 95, 135, 175, 215, 255>>
Rgb(r, g, b) == <<"rgb", r \div 8, g \div 8, b \div 8>>
Palette(n) == IF n < 16 THEN <<"index", n>>
              ELSE IF n >= 232 THEN LET v == 8 + (n - 232) * 10 IN Rgb(v, v, v)
              ELSE Rgb(Cube[((n - 16) \div 36) + 1], Cube[(((n - 16) \div 6) % 6) + 1], Cube[((n - 16) % 6) + 1])
Ansi(n) == <<"index", n>>
NoAttr == [fg |-> <<"unset">>, bg |-> <<"unset">>, bold |-> "unset", under |-> "unset", rev |-> "unset"]
Reset == [fg |-> <<"default">>, bg |-> <<"default">>, bold |-> "off", under |-> "off", rev |-> "off"]
RECURSIVE Sgr(_, _)
Sgr(ps, a) ==
  IF ps = <<>> THEN a
  ELSE LET n == ps[1]  r == Tail(ps) IN
    CASE n = 0 -> Sgr(r, Reset)
      [] n = 39 -> Sgr(r, [a EXCEPT !.fg = <<"default">>])
      [] n = 49 -> Sgr(r, [a EXCEPT !.bg = <<"default">>])
      [] n \in {1, 2, 22} -> Sgr(r, [a EXCEPT !.bold = IF n = 1 THEN "on" ELSE "off"])
      [] n \in {4, 24} -> Sgr(r, [a EXCEPT !.under = IF n = 4 THEN "on" ELSE "off"])
      [] n \in {7, 27} -> Sgr(r, [a EXCEPT !.rev = IF n = 7 THEN "on" ELSE "off"])
      [] n \in 30..37 -> Sgr(r, [a EXCEPT !.fg = Ansi(n - 30)])
      [] n \in 90..97 -> Sgr(r, [a EXCEPT !.fg = Ansi(n - 90 + 8)])
      [] n \in 40..47 -> Sgr(r, [a EXCEPT !.bg = Ansi(n - 40)])
      [] n \in 100..107 -> Sgr(r, [a EXCEPT !.bg = Ansi(n - 100 + 8)])
      [] n \in {38, 48} /\ r # <<>> ->
           LET put(c) == IF n = 38 THEN [a EXCEPT !.fg = c] ELSE [a EXCEPT !.bg = c] IN
           IF r[1] = 2 THEN Sgr(SubSeq(r, 5, Len(r)), IF Len(r) >= 4 THEN put(Rgb(r[2], r[3], r[4])) ELSE a)
           ELSE IF r[1] = 5 THEN Sgr(SubSeq(r, 3, Len(r)), IF Len(r) >= 2 THEN put(Palette(r[2])) ELSE a)
           ELSE Sgr(Tail(r), a)
      [] OTHER -> Sgr(r, a)
AttrCall(a) == <<"attr", a.fg, a.bg, a.bold, a.under, a.rev>>
CsiCalls(d) ==
  LET ps == d.p  n == Par(ps, 1, 1) IN
  IF d.priv THEN <<>>
  ELSE CASE d.final = 64  -> <<<<"insert", n>>>>
         [] d.final = 71  -> <<<<"column", n - 1>>>>
         [] d.final = 72  -> <<<<"position", Par(ps, 2, 1) - 1, n - 1>>>>
         [] d.final = 74  -> (CASE Par(ps, 1, 0) = 0 -> <<<<"clear", 1>>>> [] Par(ps, 1, 0) = 1 -> <<<<"clear", 0>>>>
                                [] Par(ps, 1, 0) = 2 -> <<<<"clear", 2>>>> [] Par(ps, 1, 0) = 3 -> <<<<"clear", 3>>>> [] OTHER -> <<>>)
         [] d.final = 75  -> (CASE Par(ps, 1, 0) = 0 -> <<<<"clear_line", 1>>>> [] Par(ps, 1, 0) = 1 -> <<<<"clear_line", 0>>>>
                                [] Par(ps, 1, 0) = 2 -> <<<<"clear_line", 2>>>> [] OTHER -> <<>>)
         [] d.final = 80  -> <<<<"delete", n>>>>
         [] d.final = 109 -> <<AttrCall(IF ps = <<>> THEN Reset ELSE Sgr(ps, NoAttr))>>
         [] d.final = 115 -> <<<<"save">>>>
         [] d.final = 117 -> <<<<"restore">>>>
         [] d.final = 65  -> <<<<"move", 0, -n>>>>
         [] d.final = 66  -> <<<<"move", 0, n>>>>
         [] d.final = 67  -> <<<<"move", n, 0>>>>
         [] d.final = 68  -> <<<<"move", -n, 0>>>>
         [] OTHER -> <<>>
\* Text is written as the letters themselves.
RECURSIVE Calls(_)
PieceCalls(p) ==
  CASE p.k = "chars" -> <<<<"write", p.s>>>>
    [] p.k = "c0" -> (CASE p.c = 8 -> <<<<"move", -1, 0>>>> [] p.c = 13 -> <<<<"move", -1000000, 0>>>>
                        [] p.c \in {9, 10} -> <<<<"write", p.s>>>> [] OTHER -> <<>>)
    [] p.k = "c1" /\ p.c = 91 -> CsiCalls(Decode(p.s, 32))
    [] p.k = "c1" /\ p.c = 93 -> LET o == Osc(p.s) IN IF o.k = "value" /\ o.s # <<>> THEN Calls(o.s) ELSE <<>>
    [] OTHER -> <<>>
Calls(t) == LET ps == Pieces(t) IN Flat([i \in 1..Len(ps) |-> PieceCalls(ps[i])])
RECURSIVE Joined(_)      \* adjacent writes as one
Joined(cs) == IF Len(cs) < 2 THEN cs
              ELSE IF cs[1][1] = "write" /\ cs[2][1] = "write" THEN Joined(<<<<"write", cs[1][2] \o cs[2][2]>>>> \o SubSeq(cs, 3, Len(cs)))
              ELSE <<cs[1]>> \o Joined(Tail(cs))
=============================================================================
