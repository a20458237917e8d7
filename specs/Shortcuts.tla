----------------------------- MODULE Shortcuts -----------------------------
(* Directory shortcuts (clink/lib/src/intercept.cpp) and the history of     *)
(* current directories (clink/app/src/host/host.cpp).                       *)
EXTENDS Paths, TLC
Blank == {" ", "\t"}
Env(n) == LET m == Str(Lower(n)) IN CASE m = "vv" -> [ok |-> TRUE, v |-> <<"a">>] [] m = "ww" -> [ok |-> TRUE, v |-> <<"c", " ", "d">>] [] OTHER -> [ok |-> FALSE, v |-> <<>>]
RECURSIVE ExpandEnv(_)
ExpandEnv(t) ==
  LET a == Find(t, 1, LAMBDA c : c = "%")
      b == Find(t, a + 1, LAMBDA c : c = "%")
      e == Env(SubSeq(t, a + 1, b - 1))
  IN IF a > Len(t) THEN t
     ELSE IF b > Len(t) THEN t
     ELSE IF b = a + 1 THEN SubSeq(t, 1, a) \o ExpandEnv(From(t, b))
     ELSE SubSeq(t, 1, a - 1) \o (IF e.ok THEN e.v ELSE SubSeq(t, a, b)) \o ExpandEnv(From(t, b + 1))
Commands == {"call", "cd", "chdir", "dir", "echo", "md", "mkdir", "popd", "pushd"}
\* The one word that the line is; [ok, t].
Word(line) ==
  LET No == [ok |-> FALSE, t |-> <<>>]
      RECURSIVE go(_, _, _, _, _)
      go(i, out, quoted, first, exp) ==
        LET c == At(line, i)
            e == IF c \in Blank /\ ~quoted THEN Find(line, i, LAMBDA x : x \notin Blank) ELSE i
        IN IF e > Len(line) THEN (IF out = <<>> THEN No ELSE [ok |-> TRUE, t |-> IF exp THEN ExpandEnv(out) ELSE out])
           ELSE IF e > i THEN No
           ELSE CASE c \in {"<", "|", ">"} -> No
                  [] c \in {"@", "(", ")", "&", "+", "=", ";", ","} -> IF quoted THEN go(i + 1, Append(out, c), quoted, first, exp) ELSE No
                  [] c = "\"" -> go(i + 1, out, ~quoted, FALSE, exp)
                  [] c = "^" /\ ~quoted /\ i < Len(line) -> go(i + 1, out, quoted, FALSE, exp)
                  [] c = "^" -> go(i + 1, Append(out, c), quoted, FALSE, exp)
                  [] c = "%" -> go(i + 1, Append(out, c), quoted, FALSE, TRUE)
                  [] c \in {".", "/", "\\"} -> IF first /\ Str(Lower(out)) \in Commands THEN No ELSE go(i + 1, Append(out, c), quoted, FALSE, exp)
                  [] OTHER -> go(i + 1, Append(out, c), quoted, first, exp)
      s == Find(line, 1, LAMBDA x : x \notin Blank)
  IN go(s, <<>>, FALSE, TRUE, FALSE)
\* ... or the command to go back.
SkipBlank(line, i) == Find(line, i, LAMBDA x : x \notin Blank)
Starts(line, i, w) == Len(line) >= i + Len(w) - 1 /\ Lower(SubSeq(line, i, i + Len(w) - 1)) = w
Back(line, onlycd) ==
  LET a == SkipBlank(line, 1)
      n == IF Starts(line, a, <<"c", "d">>) THEN 2 ELSE IF Starts(line, a, <<"c", "h", "d", "i", "r">>) THEN 5 ELSE 0
      b == SkipBlank(line, a + n)
      sw == Starts(line, b, <<"/", "d">>)
      c == IF sw THEN SkipBlank(line, b + 2) ELSE b
      cd == n > 0 /\ (IF sw THEN c > b + 2 ELSE b > a + n)
      at == IF cd THEN c ELSE a
  IN (onlycd => cd) /\ At(line, at) = "-" /\ SkipBlank(line, at + 1) > Len(line)
RECURSIVE Ups(_)
Ups(n) == IF n = 0 THEN <<>> ELSE <<".", ".", "\\">> \o Ups(n - 1)
NumDots(t) == LET n == Find(t, 1, LAMBDA c : c # ".") - 1 IN
  IF n >= 2 /\ (n = Len(t) \/ (n = Len(t) - 1 /\ IsSep(t[Len(t)]))) THEN n ELSE 0
\* Only ".."s.
AllUps(t) == LET es == Split(t, Seps) IN es # <<>> /\ t[1] = "." /\ ~IsSep(t[Len(t)]) /\ (\A k \in DOMAIN es : es[k] = Dots) /\ Len(t) = 3 * Len(es) - 1
\* The path that the line names, and whether it need not exist.
Target(line) ==
  LET w == Word(line)
      n == NumDots(w.t)
      t == IF n > 0 THEN Ups(n - 1) ELSE w.t
  IN IF ~w.ok THEN [ok |-> FALSE, t |-> <<>>, dots |-> FALSE]
     ELSE IF t = <<"~">> \/ IsSep(t[Len(t)]) THEN [ok |-> TRUE, t |-> t, dots |-> n > 0]
     ELSE IF AllUps(t) THEN [ok |-> TRUE, t |-> Append(t, "\\"), dots |-> n > 0]
     ELSE [ok |-> FALSE, t |-> <<>>, dots |-> FALSE]
Tilde(t) == t[1] = "~" /\ (Len(t) = 1 \/ IsSep(t[2]))
Full(st, t) == IF Tilde(t) THEN Join(st.home, IF Len(t) = 1 THEN <<>> ELSE From(t, SkipSep(t, 2))) ELSE t
\* The place a path names, from the current directory.
RECURSIVE FoldUps(_, _)
FoldUps(base, es) == IF es = <<>> THEN base ELSE IF es[1] = Dots THEN FoldUps(IF base = <<>> THEN <<>> ELSE SubSeq(base, 1, Len(base) - 1), Tail(es))
                     ELSE IF es[1] = Dot THEN FoldUps(base, Tail(es)) ELSE FoldUps(Append(base, Lower(es[1])), Tail(es))
At0(st, p) == FoldUps(IF Absolute(p) THEN <<>> ELSE Split(Lower(From(st.cwd, 3)), Seps), Elems(p))
Home(st) == Split(Lower(From(st.root, 3)), Seps)
IsDir(st, p) ==
  LET drv == IF HasDrive(p) THEN Lower(Drive(p)) ELSE Lower(SubSeq(st.root, 1, 2))
      x == At0(st, p)  h == Home(st)
  IN drv = Lower(SubSeq(st.root, 1, 2)) /\ ~IsUnc(p) /\ (Take(h, Len(x)) = x \/ (Take(x, Len(h)) = h /\ SubSeq(x, Len(h) + 1, Len(x)) \in st.dirs))
\* Whether a name that ends with a dot or space exists is the file system's affair, and so are servers,
\* other drives, and what is elsewhere.
Unsure(st, p) == (HasDrive(p) /\ Lower(Drive(p)) # Lower(SubSeq(st.root, 1, 2)))
  \/ (LET x == At0(st, p)  h == Home(st) IN Take(x, Len(h)) # Take(h, Len(x)))
  \/ (IsSep(At(p, 1)) /\ IsSep(At(p, 2))) \/ \E k \in DOMAIN Elems(p) : LET e == Elems(p)[k] IN e \notin {Dot, Dots} /\ e[Len(e)] \in {".", " "}
\* What becomes of a line. 0 nothing, 1 go back, 2 change directory.
Meaning(st, line, mode) ==
  LET g == Target(line)  f == Full(st, g.t) IN
  IF Back(line, mode = 1) THEN [r |-> 1, t |-> <<>>]
  ELSE IF mode = 1 \/ ~g.ok THEN [r |-> 0, t |-> <<>>]
  ELSE IF g.dots \/ IsDir(st, f) THEN [r |-> 2, t |-> f] ELSE [r |-> 0, t |-> <<>>]
Quote(t) == <<" ", "c", "d", " ", "\"">> \o t \o <<"\"">>
\* A directory of another drive needs that drive first.
Command(st, t) == IF HasDrive(t) /\ Lower(Drive(t)) # Lower(Drive(st.cwd)) THEN <<" ">> \o Drive(t) \o <<" ", "&">> \o Quote(t) ELSE Quote(t)

\* -------- the history of current directories
MaxDirs == 100
Prompt(hist, cwd, mode) ==
  LET h == IF mode = "erase_prev" THEN SelectSeq(hist, LAMBDA d : Lower(d) # Lower(cwd)) ELSE hist
      a == IF h # <<>> /\ Lower(h[Len(h)]) = Lower(cwd) THEN h ELSE Append(h, cwd)
  IN SubSeq(a, Max2(1, Len(a) - MaxDirs + 1), Len(a))
Previous(hist) == IF Len(hist) < 2 THEN <<>> ELSE hist[Len(hist) - 1]
=============================================================================
