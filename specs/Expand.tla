------------------------------- MODULE Expand -------------------------------
(* History expansion.  The remembered lines are a sequence of texts, the     *)
(* last one the most recent.  A line may refer to them:                      *)
(*   event      !!  !n  !-n  !text  !?text?  !#  (and ^old^new, short for    *)
(*              !!:s^old^new)                                                *)
(*   words      :n  ^  $  *  %  x-y  -y  x-  x*                              *)
(*   modifiers  :h :t :r :e :p :q :x :s/old/new/ :& after g, a or G          *)
(* Expanding gives an error (the line stays as it is), the line unchanged,   *)
(* the expanded line, or the expanded line to be shown but not run.          *)
EXTENDS Chars
None == [no |-> TRUE]
Fields == {" ", "\t", "\n"}
Delims == {" ", "\t", "\n", ";", "&", "(", ")", "|", "<", ">"}
Quotes == {"\"", "'", "`"}
Seps == {"/", "\\"}

(* Words, much as a shell separates them. *)
RECURSIVE WordEnd(_, _, _, _)          \* in a word: the quote or bracket it waits for, brackets open
WordEnd(t, i, wait, open) ==
  IF i > Len(t) THEN i
  ELSE LET c == t[i] IN
    IF open > 0 /\ c = "(" THEN WordEnd(t, i + 1, wait, open + 1)
    ELSE IF open > 0 /\ c = wait THEN WordEnd(t, i + 1, IF open = 1 THEN "" ELSE wait, open - 1)
    ELSE IF wait # "" /\ c = wait THEN WordEnd(t, i + 1, "", open)
    ELSE IF open = 0 /\ wait = "" /\ c \in {"<", ">", "$", "!", "@", "?", "+", "*"} /\ At(t, i + 1) = "("
      THEN IF i + 2 > Len(t) THEN i + 1 ELSE WordEnd(t, i + 2, ")", 1)
    ELSE IF wait = "" /\ c \in Delims THEN i
    ELSE WordEnd(t, i + 1, IF wait = "" /\ c \in Quotes THEN c ELSE wait, open)
Word(t, i) == IF At(t, i) \in Quotes THEN WordEnd(t, i + 1, t[i], 0) ELSE WordEnd(t, i, "", 0)
NonDigit(t, i) == Find(t, i, LAMBDA c : c \notin Digits)
Operator(t, i) ==
  LET c == t[i]  d == At(t, i + 1) IN
  IF d = c THEN IF d = "<" /\ At(t, i + 2) \in {"-", "<"} THEN i + 3 ELSE i + 2
  ELSE IF d = "&" /\ c \in {"<", ">"} THEN LET j == NonDigit(t, i + 2) IN IF At(t, j) = "-" THEN j + 1 ELSE j
  ELSE IF (d = ">" /\ c = "&") \/ (d = "|" /\ c = ">") THEN i + 2
  ELSE IF d = "(" /\ c \in {"<", ">"} THEN WordEnd(t, i + 2, ")", 1)
  ELSE i + 1
TokenEnd(t, i) ==
  LET c == At(t, i) IN
  IF c \in {"(", ")", "\n"} THEN i + 1
  ELSE IF c \in Digits THEN LET j == NonDigit(t, i) IN
       IF j > Len(t) THEN j ELSE IF t[j] \in {"<", ">"} THEN Operator(t, j) ELSE Word(t, j)
  ELSE IF c \in {"<", ">", ";", "&", "|"} THEN Operator(t, i)
  ELSE Word(t, i)
\* Each token as where it starts and where the text after it starts.
Tokens(t) ==
  LET RECURSIVE go(_)
      go(i) == LET s == Find(t, i, LAMBDA c : c \notin Fields) IN
               IF s > Len(t) THEN <<>> ELSE LET e == TokenEnd(t, s) IN <<<<s, e>>>> \o go(e)
  IN go(1)
Words(t) == LET k == Tokens(t) IN <<>> \o [n \in 1..Len(k) |-> SubSeq(t, k[n][1], k[n][2] - 1)]
WordAt(t, i) == LET k == Tokens(t)  n == {m \in 1..Len(k) : k[m][1] <= i /\ i < k[m][2]}
                IN IF n = {} THEN <<>> ELSE LET m == CHOOSE m \in n : TRUE IN SubSeq(t, k[m][1], k[m][2] - 1)

RECURSIVE Joined(_)
Joined(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<" ">> \o Joined(Tail(ws))
\* Words first..last (counted from 0), or None when there are no such words.
Range(t, first, last) ==
  LET ws == Words(t)  n == Len(ws) IN
  IF n = 0 \/ first >= n \/ last >= n \/ last < -1 \/ first > last + 1 THEN None
  ELSE [no |-> FALSE, t |-> Joined(SubSeq(ws, first + 1, last + 1))]

(* Events. *)
MatchesAt(t, i, s) == i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s
LastIn(t, s) == LET RECURSIVE go(_) go(i) == IF i < 1 THEN 0 ELSE IF MatchesAt(t, i, s) THEN i ELSE go(i - 1)
                IN go(Len(t) - Len(s) + 1)
\* The most recent line that starts with s / has s in it, and where (0 : none).
Search(lines, s, anywhere) ==
  LET RECURSIVE go(_)
      go(n) == IF n = 0 \/ s = <<>> THEN <<0, 0>>
               ELSE IF anywhere THEN LET p == LastIn(lines[n], s) IN IF p > 0 THEN <<n, p>> ELSE go(n - 1)
               ELSE IF MatchesAt(lines[n], 1, s) THEN <<n, 1>> ELSE go(n - 1)
  IN go(Len(lines))
Numbered(lines, n) == IF n \in 1..Len(lines) THEN [no |-> FALSE, t |-> lines[n]] ELSE None
\* The event named at t[i] = "!": the line, where the rest starts, and the
\* most recent search (what was looked for; the word it was found in).
Event(lines, t, i, sofar, quote, srch) ==
  LET c == At(t, i + 1)
      neg == c = "-" /\ At(t, i + 2) \in Digits
      d == IF neg THEN i + 2 ELSE i + 1
      e == NonDigit(t, d)
      n == Atoi(SubSeq(t, d, e - 1))
      any == c = "?"
      b == IF any THEN i + 2 ELSE i + 1
      RECURSIVE stop(_)
      stop(k) == IF k > Len(t) THEN k
                 ELSE IF any THEN IF t[k] \in {"\n", "?"} THEN k ELSE stop(k + 1)
                 ELSE IF t[k] \in {" ", "\t", "\n", ":", "^", "$", "*", "%"} \/ (t[k] = "-" /\ k > b) \/ (quote # "" /\ t[k] = quote) THEN k
                 ELSE stop(k + 1)
      s == stop(b)
      after == IF any /\ At(t, s) = "?" THEN s + 1 ELSE s
      typed == SubSeq(t, b, s - 1)
      want == IF any /\ typed = <<>> THEN srch.text ELSE typed
      f == Search(lines, want, any)
  IN IF c \in {":", "$", "*", "%", "^"} THEN [e |-> Numbered(lines, Len(lines)), i |-> i + 1, srch |-> srch]
     ELSE IF c = "#" THEN [e |-> [no |-> FALSE, t |-> sofar], i |-> i + 2, srch |-> srch]
     ELSE IF c = "!" THEN [e |-> Numbered(lines, Len(lines)), i |-> i + 2, srch |-> srch]
     ELSE IF At(t, d) \in Digits THEN [e |-> Numbered(lines, IF neg THEN Len(lines) + 1 - n ELSE n), i |-> e, srch |-> srch]
     ELSE IF f[1] = 0 THEN [e |-> None, i |-> after, srch |-> srch]
     ELSE [e |-> [no |-> FALSE, t |-> lines[f[1]]], i |-> after,
           srch |-> IF any THEN [text |-> want, word |-> WordAt(lines[f[1]], f[2])] ELSE srch]

(* Word designators: the words (None : no designator, the whole line) and where the rest starts. *)
Designated(t, i, line, srch) ==
  LET colon == At(t, i) = ":"
      b == IF colon THEN i + 1 ELSE i
      c == At(t, b)
      n == Len(Words(line))
      bad == [bad |-> TRUE]
      made(k, r) == IF r.no THEN bad ELSE [bad |-> FALSE, i |-> k, no |-> FALSE, t |-> r.t]
      nothing == [bad |-> FALSE, i |-> i, no |-> TRUE, t |-> <<>>]
      orEmpty(k, r) == [bad |-> FALSE, i |-> k, no |-> FALSE, t |-> IF r.no THEN <<>> ELSE r.t]
      f == NonDigit(t, b)
      first == IF c = "-" THEN 0 ELSE IF c = "^" THEN 1 ELSE Atoi(SubSeq(t, b, f - 1))
      x == IF c = "-" THEN b ELSE IF c = "^" THEN b + 1 ELSE f
      y == At(t, x)
      z == At(t, x + 1)
      ze == NonDigit(t, x + 1)
  IN IF c = "%" THEN orEmpty(b + 1, [no |-> FALSE, t |-> srch.word])
     ELSE IF c = "*" THEN orEmpty(b + 1, Range(line, 1, n - 1))
     ELSE IF c = "$" THEN IF n = 0 THEN [nothing EXCEPT !.i = b + 1] ELSE orEmpty(b + 1, Range(line, n - 1, n - 1))
     ELSE IF ~(c \in {"-", "^"} \/ (c \in Digits /\ colon)) THEN nothing
     ELSE IF y = "*" THEN made(x + 1, Range(line, first, n - 1))
     ELSE IF y = "^" THEN IF 1 >= first THEN made(x + 1, Range(line, first, 1)) ELSE bad
     ELSE IF y # "-" THEN made(x, Range(line, first, first))
     ELSE IF z \in Digits THEN LET last == Atoi(SubSeq(t, x + 1, ze - 1)) IN IF last >= first THEN made(ze, Range(line, first, last)) ELSE bad
     ELSE IF z = "$" THEN made(x + 2, Range(line, first, n - 1))
     ELSE IF z = "^" THEN IF 1 >= first THEN made(x + 2, Range(line, first, 1)) ELSE bad
     ELSE made(x + 1, Range(line, first, n - 2))       \* x- leaves out the last word

(* Substitution. *)
\* Where a pattern ends, and the pattern without the backslashes before the delimiter.
PatternEnd(t, i, d) ==
  LET RECURSIVE go(_)
      go(k) == IF k > Len(t) THEN Len(t) + 1 ELSE IF t[k] = d THEN k ELSE IF t[k] = "\\" /\ At(t, k + 1) = d THEN go(k + 2) ELSE go(k + 1)
  IN go(i)
Pattern(t, i, e, d) ==
  LET RECURSIVE go(_)
      go(k) == IF k >= e THEN <<>> ELSE IF t[k] = "\\" /\ At(t, k + 1) = d THEN (IF k + 1 < e THEN <<d>> ELSE <<>>) \o go(k + 2) ELSE <<t[k]>> \o go(k + 1)
  IN go(i)
WithOld(new, old) ==
  LET RECURSIVE go(_)
      go(k) == IF k > Len(new) THEN <<>> ELSE IF new[k] = "&" THEN old \o go(k + 1)
               ELSE IF new[k] = "\\" /\ At(new, k + 1) = "&" THEN <<"&">> \o go(k + 2) ELSE <<new[k]>> \o go(k + 1)
  IN go(1)
\* Replaces the first / every / each word's first.  Returns how many were replaced, too.
Replace(text, old, new, every, each) ==
  LET RECURSIVE go(_, _, _, _)
      go(t, i, end, n) ==                \* end: where the word looked at ends
        IF i + Len(old) - 1 > Len(t) THEN <<t, n>>
        ELSE LET j == IF each /\ i > end THEN Find(t, i, LAMBDA c : c \notin Fields) ELSE i
                 w == IF each /\ i > end THEN TokenEnd(t, j) ELSE end
             IN IF ~MatchesAt(t, j, old) THEN go(t, j + 1, w, n)
                ELSE LET u == Take(t, j - 1) \o new \o SubSeq(t, j + Len(old), Len(t))
                         v == Max2(w, j + Len(old)) + Len(new) - Len(old)
                     IN IF every THEN go(u, j + Len(new), w, n + 1)
                        ELSE IF each THEN go(u, v + 1, v, n + 1) ELSE <<u, n + 1>>
  IN go(text, 1, 0, 0)

\* Modifiers from t[i] on.  m: the text, quoting wanted, print, g, G, and the last substitution.
RECURSIVE Modified(_, _, _, _)
Modified(t, i, m, srch) ==
  IF At(t, i) # ":" THEN [m EXCEPT !.i = i]
  ELSE LET g == At(t, i + 1) \in {"g", "a"}
           G == At(t, i + 1) = "G"
           k == IF g \/ G THEN i + 2 ELSE i + 1
           c == At(t, k)
           m2 == [m EXCEPT !.every = @ \/ g, !.each = @ \/ G]
           sep == FindBack(m.t, Len(m.t), LAMBDA x : x \in Seps)
           dot == FindBack(m.t, Len(m.t), LAMBDA x : x = ".")
           on(text) == Modified(t, k + 1, [m2 EXCEPT !.t = text], srch)
           bad == [m2 EXCEPT !.bad = TRUE]
           subst(old, new, next, mm) ==
             IF old = <<>> \/ Len(old) > Len(m.t) THEN [mm EXCEPT !.bad = TRUE]
             ELSE LET r == Replace(m.t, old, new, m2.every, m2.each) IN
                  IF r[2] = 0 THEN [mm EXCEPT !.bad = TRUE]
                  ELSE Modified(t, next, [mm EXCEPT !.t = r[1], !.every = FALSE], srch)
       IN CASE c \in {"q", "x"} -> Modified(t, k + 1, [m2 EXCEPT !.quote = c], srch)
            [] c = "p" -> Modified(t, k + 1, [m2 EXCEPT !.print = TRUE], srch)
            [] c = "t" -> on(IF sep = 0 THEN m.t ELSE SubSeq(m.t, sep + 1, Len(m.t)))
            [] c = "h" -> on(IF sep = 0 THEN m.t ELSE Take(m.t, sep - 1))
            [] c = "r" -> on(IF dot = 0 THEN m.t ELSE Take(m.t, dot - 1))
            [] c = "e" -> on(IF dot = 0 THEN m.t ELSE SubSeq(m.t, dot, Len(m.t)))
            [] c = "&" -> subst(m2.old, m2.new, k + 1, m2)
            [] c = "s" -> IF k + 1 > Len(t) THEN on(m.t) ELSE
                 LET d == t[k + 1]
                     e1 == PatternEnd(t, k + 2, d)
                     e2 == PatternEnd(t, e1 + 1, d)
                     old == IF e1 > k + 2 THEN Pattern(t, k + 2, e1, d) ELSE IF m2.old = <<>> THEN srch.text ELSE m2.old
                     new == IF e1 >= Len(t) THEN <<>> ELSE Pattern(t, e1 + 1, e2, d)
                     real == WithOld(new, old)
                 IN subst(old, real, Min2(e2, Len(t)) + 1, [m2 EXCEPT !.old = old, !.new = real])
            [] OTHER -> bad
Single(t) == <<"'">> \o Flat([i \in 1..Len(t) |-> IF t[i] = "'" THEN <<"'", "\\", "'", "'">> ELSE <<t[i]>>]) \o <<"'">>
Broken(t) == <<"'">> \o Flat([i \in 1..Len(t) |-> IF t[i] = "'" THEN <<"'", "\\", "'", "'">> ELSE IF t[i] \in Fields THEN <<"'", t[i], "'">> ELSE <<t[i]>>]) \o <<"'">>
Quoted(t, q) == IF q = "q" THEN Single(t) ELSE IF q = "x" THEN Broken(t) ELSE t

(* Quotes that keep "!" from being special. *)
QuoteAt(t, n) == LET RECURSIVE go(_, _)
                     go(i, q) == IF i > n \/ i > Len(t) THEN q ELSE go(i + 1, IF t[i] \in {"'", "\""} THEN IF t[i] = q THEN "" ELSE t[i] ELSE q)
                 IN go(1, "")
Inhibited(mode, t, n) ==           \* "!" after n characters of t
  LET q == QuoteAt(t, n) IN
  CASE mode = "off" -> TRUE
    [] mode = "on" -> FALSE
    [] mode = "not_squoted" -> q = "'"
    [] mode = "not_dquoted" -> q = "\""
    [] OTHER -> q # ""
NoBang == {"", " ", "\t", "\n", "\r", "="}

(* A line.  st: the last substitution [old, new].  Returns [r, t, st, list]. *)
Expanded(lines, line, mode, st) ==
  LET quick == At(line, 1) = "^"
      t == IF quick THEN <<"!", "!", ":", "s">> \o line ELSE line
      candidate == quick \/ \E i \in 1..Len(t) : t[i] = "!" /\ At(t, i + 1) \notin NoBang /\ ~Inhibited(mode, t, i - 1)
      shift == IF quick THEN 4 ELSE 0
      RECURSIVE go(_, _, _, _, _, _, _)
      \* out so far; inside " and '; last search; last substitution; what was expanded so far
      go(i, out, dq, sq, srch, s, done) ==
        IF i > Len(t) THEN [r |-> IF done.print THEN 2 ELSE IF done.any THEN 1 ELSE 0, t |-> out, st |-> s, list |-> done.list]
        ELSE LET c == t[i]  d == At(t, i + 1)
                 plain == go(i + 1, Append(out, c), IF c = "\"" THEN ~dq ELSE dq,
                             IF c = "'" THEN IF sq THEN FALSE ELSE ~dq ELSE sq, srch, s, done)
                 err(x) == [r |-> -1, t |-> line, st |-> x, list |-> <<>>]
             IN IF c # "!" \/ d \in NoBang \/ (dq /\ d = "\"") \/ Inhibited(mode, out, Len(out)) THEN plain
                ELSE LET ev == Event(lines, t, i, out, IF sq THEN "'" ELSE IF dq THEN "\"" ELSE "", srch) IN
                  IF ev.e.no THEN err(s)
                  ELSE LET w == Designated(t, ev.i, ev.e.t, ev.srch) IN
                    IF w.bad THEN err(s)
                    ELSE LET m == Modified(t, w.i, [bad |-> FALSE, i |-> w.i, t |-> IF w.no THEN ev.e.t ELSE w.t, quote |-> "", print |-> FALSE,
                                     every |-> FALSE, each |-> FALSE,
                                     old |-> s.old, new |-> s.new], ev.srch)
                             s2 == [old |-> m.old, new |-> m.new]
                             x == Quoted(m.t, m.quote)
                         IN IF m.bad THEN err(s2)
                            ELSE go(m.i, out \o x, dq, sq, ev.srch, s2,
                                    [any |-> TRUE, print |-> done.print \/ m.print,
                                     list |-> Append(done.list, [at |-> IF i = 1 THEN 0 ELSE i - 1 - shift,
                                                                 len |-> (m.i - 1 - shift) - (IF i = 1 THEN 0 ELSE i - 1 - shift), t |-> x])])
  IN IF mode = "off" \/ ~candidate THEN [r |-> 0, t |-> line, st |-> st, list |-> <<>>]
     ELSE go(1, <<>>, FALSE, FALSE, [text |-> <<>>, word |-> <<>>], st, [any |-> FALSE, print |-> FALSE, list |-> <<>>])
=============================================================================
