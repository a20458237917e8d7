------------------------------ MODULE CmdWords ------------------------------
(***************************************************************************)
(* How a command line is divided into commands and words                   *)
(* (clink/lib/src/cmd_tokenisers.cpp, word_collector.cpp).                 *)
(* Positions are from 1; a range is [o, n]: offset and length.             *)
(***************************************************************************)
EXTENDS CmdLib

Kind(c) == CASE c \in {" ", "\t", ""} -> "Spc"
             [] c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} -> "Dig"
             [] c = "<" -> "In" [] c = ">" -> "Out" [] c = "&" -> "Amp" [] c = "|" -> "Pipe"
             [] OTHER -> "Txt"

Row(txt, spc, dig, in, out, amp, pipe) ==
  [Txt |-> txt, Spc |-> spc, Dig |-> dig, In |-> in, Out |-> out, Amp |-> amp, Pipe |-> pipe]
\* Redirections: "<", "<<", ">", ">>", a handle digit before them, "&digit"
\* after them.  ARG: an argument of a redirection starts here; VALID: the
\* redirection is complete; BAD: what precedes is no redirection.
Tr == [Txt  |-> Row("Txt", "Spc", "Txt", "In",  "Out", "BREAK", "BREAK"),
       Spc  |-> Row("Txt", "Spc", "Dig", "In",  "Out", "BREAK", "BREAK"),
       Dig  |-> Row("Txt", "Spc", "Txt", "DIn", "DOut", "BREAK", "BREAK"),
       In   |-> Row("ARG", "ARG", "ARG", "In2", "BAD", "BAD", "BAD"),
       Out  |-> Row("ARG", "ARG", "ARG", "BAD", "Out2", "BAD", "BAD"),
       In2  |-> Row("ARG", "ARG", "ARG", "BAD", "BAD", "BAD", "BAD"),
       Out2 |-> Row("ARG", "ARG", "ARG", "BAD", "BAD", "BAD", "BAD"),
       DIn  |-> Row("ARG", "ARG", "ARG", "DIn2", "BAD", "ReAm", "BAD"),
       DOut |-> Row("ARG", "ARG", "ARG", "BAD", "DOut2", "ReAm", "BAD"),
       DIn2 |-> Row("ARG", "ARG", "ARG", "BAD", "BAD", "ReAm", "BAD"),
       DOut2 |-> Row("ARG", "ARG", "ARG", "BAD", "BAD", "ReAm", "BAD"),
       ReAm |-> Row("BAD", "BAD", "AmDi", "BAD", "BAD", "BAD", "BAD"),
       AmDi |-> Row("VALID", "VALID", "VALID", "VALID", "VALID", "VALID", "VALID")]
Over == {"ARG", "VALID", "BAD"}

\* CMD's built-in commands: after one of these certain characters end the
\* command word, and after rem the rest of the line is a comment.
Special ==
  {<<"b", "r", "e", "a", "k">>, <<"c", "a", "l", "l">>, <<"c", "d">>, <<"c", "h", "d", "i", "r">>, <<"c", "l", "s">>, <<"c", "o", "p", "y">>, <<"d", "a", "t", "e">>, <<"d", "e", "l">>, <<"d", "i", "r">>, <<"d", "p", "a", "t", "h">>, <<"e", "c", "h", "o">>, <<"e", "n", "d", "l", "o", "c", "a", "l">>, <<"e", "r", "a", "s", "e">>, <<"e", "x", "i", "t">>, <<"f", "o", "r">>, <<"g", "o", "t", "o">>, <<"m", "d">>, <<"m", "k", "d", "i", "r">>, <<"m", "k", "l", "i", "n", "k">>, <<"m", "o", "v", "e">>, <<"p", "a", "t", "h">>, <<"p", "a", "u", "s", "e">>, <<"p", "o", "p", "d">>, <<"p", "r", "o", "m", "p", "t">>, <<"p", "u", "s", "h", "d">>, <<"r", "d">>, <<"r", "e", "m">>, <<"r", "e", "n">>, <<"r", "e", "n", "a", "m", "e">>, <<"r", "m", "d", "i", "r">>, <<"s", "e", "t", "l", "o", "c", "a", "l">>, <<"s", "h", "i", "f", "t">>, <<"s", "t", "a", "r", "t">>, <<"t", "i", "m", "e">>, <<"t", "i", "t", "l", "e">>, <<"t", "y", "p", "e">>, <<"v", "o", "l">>}
Basic == {<<"a", "s", "s", "o", "c">>, <<"c", "o", "l", "o", "r">>, <<"f", "t", "y", "p", "e">>, <<"i", "f">>, <<"s", "e", "t">>, <<"v", "e", "r">>, <<"v", "e", "r", "i", "f", "y">>}
Rem == <<"r", "e", "m">>
RECURSIVE NoCarets(_)
NoCarets(w) == IF w = <<>> THEN <<>> ELSE IF w[1] = "^" THEN (IF Len(w) = 1 THEN <<>> ELSE <<w[2]>> \o NoCarets(Sub(w, 3, Len(w))))
               ELSE <<w[1]>> \o NoCarets(Sub(w, 2, Len(w)))
Builtins == Special \cup Basic
Builtin(w) == IF Len(w) > 16 THEN <<>> ELSE LET l == Lower(w) IN
  IF l \in Builtins THEN l ELSE IF NoCarets(l) \in Builtins THEN NoCarets(l) ELSE <<>>

Ascii == {"", "\t", "\n", " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~"}
  \cup DOMAIN Low \cup {Low[c] : c \in DOMAIN Low}
NonAscii(c) == c \notin Ascii

\* Recognizing the built-in command word character by character.
CmdStart(at) == [w |-> <<>>, first |-> at, failed |-> FALSE, match |-> FALSE]
CmdNextWord(s) == IF s.first THEN [s EXCEPT !.first = FALSE] ELSE [s EXCEPT !.failed = TRUE]
CommandEnds == {"&", "(", "=", "+", "[", "]", "\\", "|", ";", ":", ",", ".", "<", ">", "/", " ", "\t", ""}
\* [s: new state, hit: the character c follows a built-in command name]
CmdTest(s, c, new, onlyRem) ==
  IF s.failed THEN [s |-> s, hit |-> FALSE]
  ELSE IF s.w = <<>> /\ (new \notin {"Txt", "Spc", "Dig"} \/ c \in {" ", "\t", "(", "@"}) THEN [s |-> s, hit |-> FALSE]
  ELSE IF Len(s.w) > 8 \/ NonAscii(c) THEN [s |-> [s EXCEPT !.failed = TRUE], hit |-> FALSE]
  ELSE IF s.match /\ c \in CommandEnds THEN [s |-> [s EXCEPT !.failed = TRUE], hit |-> TRUE]
  ELSE LET w == Append(s.w, c)
           b == Builtin(w)
       IN IF b = <<>> THEN [s |-> [s EXCEPT !.w = w, !.match = FALSE], hit |-> FALSE]
          ELSE IF onlyRem /\ b # Rem THEN [s |-> [s EXCEPT !.w = w, !.match = FALSE, !.failed = TRUE], hit |-> FALSE]
          ELSE [s |-> [s EXCEPT !.w = w, !.match = TRUE], hit |-> FALSE]

NameDelims == {"@", " ", "\t", "=", ";", ",", "("}
CommandDelims == NameDelims \cup {"/"}
WordDelims == {" ", "\t", "\n", "'", "`", "=", "+", ";", ",", "(", ")", "[", "]", "{", "}"}

\* Bytes that continue a UTF-8 character (written "u" and two hex digits).
ContBytes == {"u" \o x \o y : x \in {"8", "9", "a", "b"}, y \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"}}
Cont(c) == c \in ContBytes
Next1(t, p) == IF p <= Len(t) THEN p + 1 ELSE p

---------------------------------------------------------------------------
(* Commands.                                                               *)
\* Scans a command from p; the position after it.
RECURSIVE ScanCommand(_, _, _, _, _, _, _)
ScanCommand(t, p, q, isArg, any, st, cs) ==
  IF p > Len(t) THEN p
  ELSE IF q THEN ScanCommand(t, p + 1, t[p] # "\"", isArg, any, st, cs)
  ELSE
  LET c    == t[p]
      p1   == IF c = "^" THEN Next1(t, p + 1) ELSE p + 1
      in   == Kind(c)
      n1   == Tr[st][in]
      txt  == n1 \in {"Txt", "Dig"} /\ ~any /\ ~Cont(c) /\ c \notin NameDelims /\ c \notin {"&", "|"}
      any1 == any \/ txt
      \* "@1>file": the digit is the command
      p2   == IF txt /\ in = "Dig" /\ n1 = "Txt" /\ At(t, p1 - 2) = "@" /\ At(t, p1) = ">" THEN p1 + 1 ELSE p1
      n2   == IF n1 = "BREAK" /\ ~any1 THEN "Txt" ELSE n1
      n3   == IF n2 \in Over THEN Tr["Spc"][in] ELSE n2
      arg1 == IF n2 \in Over THEN TRUE ELSE IF n2 # "Txt" THEN FALSE ELSE isArg
      try  == n3 \in {"Txt", "Spc", "Dig"} /\ ~arg1
      ct   == IF try THEN CmdTest(cs, c, n3, TRUE) ELSE [s |-> cs, hit |-> FALSE]
  IN IF ct.hit THEN Len(t) + 1
     ELSE IF n3 = "BREAK" THEN p2 - 1
     ELSE ScanCommand(t, p2, c = "\"", arg1, any1, n3, ct.s)

\* The command at or after position p: [o, n: range, p: where to go on].
NextCommand(macros, t, p, enh) ==
  LET first == p = 1
      s  == IF first THEN p ELSE IF At(t, p) \in {"&", "|"} THEN (IF At(t, p + 1) = t[p] THEN p + 2 ELSE p + 1) ELSE p
      lp == LeadingParens(macros, t, s, first, enh)
      f  == first /\ lp.n = 0
      o  == IF ~f /\ lp.n = 0 /\ At(t, lp.p) = " " THEN lp.p + 1 ELSE lp.p
      m  == MacroWord(macros, t, o)
      cs == IF m > 0 THEN [CmdStart(TRUE) EXCEPT !.failed = TRUE] ELSE CmdStart(TRUE)
      e  == ScanCommand(t, o + m, FALSE, FALSE, m > 0, "Spc", cs)
  IN [o |-> o, n |-> TrimParens(t, o, e, lp.n) - o, p |-> e]

\* Is the command at position o one for which a macro applies?
MacroAllowed(t, o, enh) ==
  LET b == LET RECURSIVE back(_) back(k) == IF k >= 1 /\ t[k] = " " THEN back(k - 1) ELSE k IN back(o - 1)
      spaces == o - 1 - b
      max == IF b >= 1 THEN 1 ELSE 0
  IN At(t, o) # " " /\ (b < 1 \/ (t[b] \in {"&", "|"} /\ enh)) /\ spaces <= max

\* All commands; when completing, up to the one with the cursor.
\* t: the text up to where words are wanted, full: the whole line.
Commands(macros, t, full, cursor, atCursor, enh) ==
  LET RECURSIVE go(_, _)
      go(p, acc) ==
        IF p > Len(t) THEN IF acc # <<>> THEN acc ELSE <<[o |-> p, n |-> 0, a |-> FALSE]>>
        ELSE LET c == NextCommand(macros, t, p, enh)
                 a2 == Append(acc, [o |-> c.o, n |-> c.n, a |-> MacroAllowed(full, c.o, enh)])
             IN IF atCursor /\ cursor + 1 >= c.o /\ cursor + 1 <= c.o + c.n THEN a2
                ELSE go(c.p, a2)
  IN go(1, <<>>)

---------------------------------------------------------------------------
(* Words of the command text t, which is a part of `full` starting after   *)
(* position b.                                                             *)
Delims(cmdWord, redir, inWord) ==
  IF redir \/ (cmdWord /\ ~inWord) THEN NameDelims ELSE IF cmdWord THEN CommandDelims ELSE WordDelims

\* Where a word starts: after delimiters (and "^ ").
RECURSIVE SkipDelims(_, _, _)
SkipDelims(t, p, ds) ==
  IF p > Len(t) THEN p
  ELSE IF t[p] = "^" THEN (IF At(t, p + 1) = " " THEN SkipDelims(t, p + 2, ds) ELSE p)
  ELSE IF t[p] \in ds THEN SkipDelims(t, p + 1, ds) ELSE p

\* w: [p, s, e: start and end of the word, q, st, redir, nra, cs, fc, fs]
RECURSIVE ScanWord(_, _, _, _, _)
ScanWord(t, full, b, cw, w) ==
  IF w.q THEN
    IF w.p > Len(t) THEN w
    ELSE ScanWord(t, full, b, cw, [w EXCEPT !.q = t[w.p] # "\"", !.p = @ + 1, !.e = w.p + 1, !.fc = FALSE])
  ELSE
  LET unb(x) == IF x = "BREAK" THEN "Txt" ELSE x
      c0 == At(t, w.p)
      fs == IF w.fc THEN c0 = "/" ELSE w.fs
      n0 == unb(Tr[w.st][Kind(c0)])
      over == n0 \in Over
      \* a new word starts where a redirection symbol ends
      w1 == IF over /\ w.e <= w.s
            THEN LET p == SkipDelims(t, w.p, Delims(cw, n0 = "ARG", FALSE))
                 IN [w EXCEPT !.p = p, !.s = p, !.e = p, !.redir = n0 = "ARG", !.nra = FALSE, !.st = "Spc", !.cs = CmdNextWord(@), !.fs = fs]
            ELSE [w EXCEPT !.fs = fs, !.nra = IF over THEN n0 = "ARG" ELSE @]
  IN IF over /\ w.e > w.s THEN w1
     ELSE
     LET c1 == At(t, w1.p)
         n1 == unb(Tr[w1.st][Kind(c1)])
         e1 == IF n1 \in {"Txt", "Spc"} /\ w1.st \in {"Txt", "Spc", "Dig"} THEN w1.p ELSE w1.e
         w2 == [w1 EXCEPT !.e = e1]
     IN IF w1.p > Len(t) THEN w2
        ELSE
        LET c2  == At(full, b + w1.p + 1)
            esc == c1 = "^" /\ ~w1.redir /\ Kind(c2) = "Spc"
            c   == IF esc THEN c2 ELSE c1
            n   == IF esc THEN Tr[w1.st]["Spc"] ELSE n1
            ct  == IF n = "Txt" THEN CmdTest(w2.cs, c, n, FALSE) ELSE [s |-> w2.cs, hit |-> FALSE]
            w3  == [w2 EXCEPT !.cs = ct.s]
            ds  == Delims(cw, w3.redir, ~w3.fs /\ ~w3.fc)
            p1  == IF c = "^" THEN Next1(t, w3.p + 1) ELSE w3.p + 1
            w4  == [w3 EXCEPT !.p = p1]
        IN IF ct.hit THEN w3
           ELSE IF c = "/" /\ ~w3.fs /\ ~w3.fc /\ cw /\ ~w3.redir THEN w3
           ELSE IF n = "Spc" THEN w4
           ELSE IF n = "Txt" /\ c \in ds THEN w4
           ELSE ScanWord(t, full, b, cw, [w4 EXCEPT !.e = IF n = "Txt" THEN p1 ELSE @, !.q = c = "\"", !.st = n, !.fc = FALSE])

\* The words of t from p on: sequence of [o, n, redir], positions in t.
RECURSIVE WordsFrom(_, _, _, _, _, _, _)
WordsFrom(t, full, b, p, cw, nra, cs) ==
  IF p > Len(t) THEN <<>>
  ELSE LET s == SkipDelims(t, p, Delims(cw, nra, FALSE))
           w == ScanWord(t, full, b, cw, [p |-> s, s |-> s, e |-> s, q |-> FALSE, st |-> "Spc", redir |-> nra, nra |-> FALSE,
                                          cs |-> CmdNextWord(cs), fc |-> TRUE, fs |-> FALSE])
       IN <<[o |-> w.s, n |-> w.e - w.s, redir |-> w.redir]>>
          \o WordsFrom(t, full, b, w.p, IF w.redir THEN cw ELSE FALSE, w.nra, w.cs)

Word(o, n, cmd, alias, redir) == [o |-> o, n |-> n, cmd |-> cmd, alias |-> alias, redir |-> redir, q |-> FALSE]

\* Words of command c of the line.
CommandWords(macros, full, limit, c) ==
  LET first == Find(full, c.o, LAMBDA x : x \in {" ", "\t"})
      fl    == IF first - c.o > c.n THEN c.n ELSE first - c.o
      alias == c.a /\ fl > 0 /\ IsMacro(macros, Sub(full, c.o, c.o + fl - 1))
      b     == IF alias THEN LET e == Find(full, c.o + fl, LAMBDA x : x \notin {" ", "\t"}) IN (IF e > limit + 1 THEN limit + 1 ELSE e) - 1
               ELSE c.o - 1
      len   == c.n - (b - (c.o - 1))
      raw   == IF len <= 0 THEN <<>>
               ELSE WordsFrom(Sub(full, b + 1, b + len), full, b, 1, ~alias, FALSE, CmdStart(~alias))
      end   == c.o + c.n            \* position after the command
      \* "+" right after a space belongs to the word
      plus(w)  == IF w.o >= 3 /\ At(full, w.o - 1) = "+" /\ At(full, w.o - 2) = " "
                  THEN [w EXCEPT !.o = @ - 1, !.n = @ + 1] ELSE w
      \* -flag: and /flag: end a word; -flag= includes the =
      flag(w)  == ~w.redir /\ w.n > 1 /\ At(full, w.o) \in {"-", "/"}
      RECURSIVE eqs(_)
      eqs(p) == IF p < end /\ full[p] = "=" THEN eqs(p + 1) ELSE p
      split(w) == IF ~flag(w) THEN <<w>>
                  ELSE LET k == Find(Sub(full, 1, w.o + w.n - 1), w.o, LAMBDA x : x = ":")
                       IN IF k < w.o + w.n
                          THEN <<[w EXCEPT !.n = k - w.o + 1, !.redir = FALSE], [w EXCEPT !.o = k + 1, !.n = w.o + w.n - k - 1]>>
                          ELSE <<[w EXCEPT !.n = eqs(w.o + w.n) - w.o]>>
      RECURSIVE all(_)
      all(k) == IF k > Len(raw) THEN <<>>
                ELSE split(plus([raw[k] EXCEPT !.o = @ + b])) \o all(k + 1)
      ws == all(1)
      mk(k) == Word(ws[k].o, ws[k].n, ~alias /\ k = 1, FALSE, ws[k].redir)
  IN (IF alias THEN <<Word(c.o, fl, TRUE, TRUE, FALSE)>> ELSE <<>>) \o [k \in 1..Len(ws) |-> mk(k)]

\* Quotes around a word are not part of it.
Unquote(full, w) ==
  IF w.n = 0 \/ w.alias \/ At(full, w.o) # "\"" THEN w
  ELSE LET last == w.o + w.n - 1
           RECURSIVE go(_, _, _)       \* position, inside quotes, last closing quote
           go(p, q, l) == IF p > last THEN [q |-> q, l |-> l]
                          ELSE IF full[p] = "\"" THEN go(p + 1, ~q, IF q THEN p ELSE l)
                          ELSE IF ~q /\ full[p] = "^" THEN go(p + 2, q, l)
                          ELSE go(p + 1, q, l)
           x == go(w.o + 1, TRUE, 0)
           closed == w.n > 1 /\ full[last] = "\"" /\ ~x.q /\ x.l = last
       IN [w EXCEPT !.o = @ + 1, !.n = @ - (IF closed THEN 2 ELSE 1), !.q = TRUE]

\* Positions of the words that start a group (the first one always does).
SelectSeqIdx(ws) == LET RECURSIVE go(_) go(k) == IF k > Len(ws) THEN <<>> ELSE (IF k = 1 \/ ws[k].cmd THEN <<k>> ELSE <<>>) \o go(k + 1) IN go(1)

\* Everything: the words of the line (or up to the cursor), the commands, and
\* the offset of the command with the cursor.
Collect(macros, full, cursor, atCursor, enh, slashes) ==
  LET limit == IF atCursor THEN cursor ELSE Len(full)
      t     == Sub(full, 1, limit)
      cs    == Commands(macros, t, full, cursor, atCursor, enh)
      RECURSIVE all(_)
      all(k) == IF k > Len(cs) THEN <<>> ELSE CommandWords(macros, full, limit, cs[k]) \o all(k + 1)
      ws0   == all(1)
      n0    == Len(ws0)
      \* "./x" and "../x" are one word when completing with slash translation
      merge == /\ atCursor /\ slashes /\ n0 >= 2
               /\ LET a == ws0[n0 - 1] z == ws0[n0] IN
                  /\ a.cmd /\ a.n > 0 /\ z.n > 0 /\ z.o = a.o + a.n /\ full[z.o] = "/" /\ full[a.o] = "."
                  /\ (a.n = 1 \/ (a.n = 2 /\ full[a.o + 1] = "."))
      ws1   == IF merge THEN [Sub(ws0, 1, n0 - 1) EXCEPT ![n0 - 1].n = @ + ws0[n0].n] ELSE ws0
      n1    == Len(ws1)
      lastN == Len(CommandWords(macros, full, limit, cs[Len(cs)]))
      ws2   == IF n1 = 0 \/ (atCursor /\ ws1[n1].o + ws1[n1].n < cursor + 1)
               THEN Append(ws1, Word(cursor + 1, 0, lastN = 0, FALSE, FALSE)) ELSE ws1
      co    == LET ks == {k \in 1..Len(cs) : cursor + 1 >= cs[k].o} IN IF ks = {} THEN 1 ELSE cs[CHOOSE k \in ks : \A j \in ks : j <= k].o
  IN [words |-> [k \in 1..Len(ws2) |-> Unquote(full, ws2[k])], commands |-> cs, offset |-> co]

\* One line state per command that has words: its words, where its first word
\* starts (including a space that keeps a macro from applying), the command's
\* range; the command word is flagged when it is a CMD built-in.
LineStates(full, x) ==
  LET ws == x.words
      starts == SelectSeqIdx(ws)
      RECURSIVE skip(_, _)
      skip(k, o) == IF k < Len(x.commands) /\ x.commands[k].o + x.commands[k].n < o THEN skip(k + 1, o) ELSE k
      RECURSIVE go(_, _)
      go(g, k) ==
        IF g > Len(starts) THEN <<>>
        ELSE LET a == starts[g]
                 z == IF g = Len(starts) THEN Len(ws) ELSE starts[g + 1] - 1
                 o0 == ws[a].o - (IF ws[a].q THEN 1 ELSE 0)
                 co == IF (o0 = 2 /\ At(full, 1) = " ") \/ (o0 >= 3 /\ At(full, o0 - 1) = " " /\ At(full, o0 - 2) = " ") THEN o0 - 1 ELSE o0
                 k1 == skip(k, co)
                 cw == LET s == {i \in a..z : ~ws[i].redir} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
                 b  == cw > 0 /\ ~ws[cw].q /\ ~ws[cw].alias /\ Builtin(Sub(full, ws[cw].o, ws[cw].o + ws[cw].n - 1)) # <<>>
             IN <<[o |-> co, ro |-> x.commands[k1].o, rn |-> x.commands[k1].n, n |-> z - a + 1, builtin |-> IF b THEN cw - a + 1 ELSE 0]>> \o go(g + 1, k1)
  IN go(1, 1)
=============================================================================
