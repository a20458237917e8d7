------------------------------- MODULE Doskey -------------------------------
(***************************************************************************)
(* Expansion of doskey macros in an input line (clink/lib/src/doskey.cpp). *)
(* Expand(macros, line, enhanced) is the text that CMD receives, or the    *)
(* line itself when no macro applies; a $T in a macro separates lines.     *)
(***************************************************************************)
EXTENDS CmdLib

\* Position of the command separator that ends the command starting at i: an
\* unquoted, unescaped | or & that is not part of >& (or the end).
RECURSIVE CommandEnd(_, _, _)
CommandEnd(t, i, q) ==
  IF i > Len(t) THEN i
  ELSE IF t[i] = "\"" THEN CommandEnd(t, i + 1, ~q)
  ELSE IF q THEN CommandEnd(t, i + 1, q)
  ELSE IF t[i] = ">" /\ At(t, i + 1) = "&" THEN CommandEnd(t, i + 2, q)
  ELSE IF t[i] = "^" /\ i < Len(t) THEN CommandEnd(t, i + 2, q)
  ELSE IF t[i] \in {"|", "&"} THEN i
  ELSE CommandEnd(t, i + 1, q)

\* End of the macro name starting at i.
RECURSIVE NameEnd(_, _, _)
NameEnd(t, i, seps) ==
  IF i > Len(t) \/ t[i] = " " THEN i
  ELSE IF t[i] = ">" THEN NameEnd(t, IF At(t, i + 1) = "&" THEN i + 2 ELSE i + 1, seps)
  ELSE IF seps /\ t[i] \in {"|", "&"} THEN i
  ELSE NameEnd(t, i + 1, seps)

NoMacro == [ok |-> FALSE]
\* The macro invoked by the command at i: start and end of its name (e: where
\* scanning stopped, including trailing parens), number of enclosing parens.
Lookup(macros, t, i, enhanced) ==
  LET lp == LeadingParens(macros, t, i, TRUE, enhanced)
      try(seps) == LET e == NameEnd(t, lp.p, seps)
                       ne == TrimParens(t, lp.p, e, lp.n)
                   IN [ok |-> IsMacro(macros, Sub(t, lp.p, ne - 1)), s |-> lp.p, ne |-> ne, e |-> e, n |-> lp.n]
  IN IF At(t, lp.p) = " " THEN NoMacro
     ELSE IF try(FALSE).ok THEN try(FALSE)
     ELSE IF enhanced /\ try(TRUE).ok THEN try(TRUE) ELSE NoMacro

\* Does the macro use its arguments inside quotes?  (Then separators belong to
\* the arguments.)
RECURSIVE ArgsQuoted(_, _, _)
ArgsQuoted(m, i, q) ==
  IF i > Len(m) THEN FALSE
  ELSE IF m[i] = "\"" THEN ArgsQuoted(m, i + 1, ~q)
  ELSE IF m[i] # "$" THEN ArgsQuoted(m, i + 1, q)
  ELSE IF At(m, i + 1) \in {"*", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
       THEN q \/ ArgsQuoted(m, i + 1, q)
  ELSE ArgsQuoted(m, IF At(m, i + 1) = "$" THEN i + 2 ELSE i + 1, q)

\* Arguments: [s, e) ranges separated by spaces; quotes protect spaces in
\* enhanced mode.  At most ten.
RECURSIVE ArgEnd(_, _, _, _, _)
ArgEnd(t, i, end, q, enhanced) ==
  IF i >= end THEN i
  ELSE IF q THEN ArgEnd(t, i + 1, end, t[i] # "\"", enhanced)
  ELSE IF t[i] = " " THEN i
  ELSE ArgEnd(t, i + 1, end, enhanced /\ t[i] = "\"", enhanced)
RECURSIVE Args(_, _, _, _)
Args(t, i, end, enhanced) ==
  IF i >= end THEN <<>>
  ELSE IF t[i] = " " THEN Args(t, i + 1, end, enhanced)
  ELSE LET e == ArgEnd(t, i, end, FALSE, enhanced)
       IN <<[s |-> i, e |-> e]>> \o Args(t, e, end, enhanced)

Digits == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
Tag(c) == CASE c = "$" -> <<"$">> [] c \in {"g", "G"} -> <<">">> [] c \in {"l", "L"} -> <<"<">>
            [] c \in {"b", "B"} -> <<"|">> [] c \in {"t", "T"} -> <<"\n">> [] OTHER -> <<>>
\* The macro text m with its tags replaced.  `star`: everything from the first
\* argument to the end of the command.
RECURSIVE Replace(_, _, _, _, _)
Replace(m, i, t, args, star) ==
  IF i > Len(m) THEN <<>>
  ELSE IF m[i] # "$" THEN <<m[i]>> \o Replace(m, i + 1, t, args, star)
  ELSE LET c == At(m, i + 1)
           rest == Replace(m, i + 2, t, args, star) IN
       IF c = "" THEN <<>>
       ELSE IF Tag(c) # <<>> THEN Tag(c) \o rest
       ELSE IF c = "*" THEN star \o rest
       ELSE IF \E d \in 1..9 : Digits[d] = c
            THEN LET d == CHOOSE d \in 1..9 : Digits[d] = c
                 IN (IF d <= Len(args) /\ d <= 10 THEN Sub(t, args[d].s, args[d].e - 1) ELSE <<>>) \o rest
       ELSE <<"$", c>> \o rest

HasStar(m) == \E i \in 1..Len(m) : m[i] = "*" /\ i > 1 /\ m[i-1] = "$"

\* Expands the commands of t from position i on.
RECURSIVE From(_, _, _, _)
From(macros, t, i, enhanced) ==
  IF i > Len(t) THEN [out |-> <<>>, any |-> FALSE]
  ELSE
  LET k     == Lookup(macros, t, i, enhanced)
      m     == MacroText(macros, Sub(t, k.s, k.ne - 1))
      closed == k.ne < k.e                         \* as in (name)
      a     == IF closed THEN k.ne ELSE Find(t, k.e, LAMBDA c : c # " ")
      split == enhanced /\ ~ArgsQuoted(m, 1, FALSE)
      cend  == IF split THEN CommandEnd(t, a, FALSE) ELSE Len(t) + 1
      aend  == IF closed THEN a ELSE TrimParens(t, a, cend, k.n)
      args  == Args(t, a, aend, enhanced)
      star  == IF args = <<>> THEN <<>> ELSE Sub(t, args[1].s, aend - 1)
      \* the parens that closed the skipped ones follow the expansion
      next  == IF k.ok THEN cend ELSE CommandEnd(t, i, FALSE)
      here  == IF k.ok THEN Sub(t, i, k.s - 1) \o Replace(m, 1, t, args, star) \o Sub(t, aend, cend - 1)
               ELSE Sub(t, i, next - 1)
      sep   == Find(t, next, LAMBDA c : c \notin {"|", "&"})
      sp    == IF At(t, sep) = " " THEN sep + 1 ELSE sep
      rest  == From(macros, t, sp, enhanced)
  IN [out |-> here \o Sub(t, next, sp - 1) \o rest.out, any |-> k.ok \/ rest.any]

\* Without the enhancements only the first command can be a macro.
Applies(macros, t, enhanced) ==
  IF enhanced THEN From(macros, t, 1, TRUE).any ELSE t # <<>> /\ Lookup(macros, t, 1, FALSE).ok
Expand(macros, t, enhanced) ==
  IF Applies(macros, t, enhanced) THEN From(macros, t, 1, enhanced).out ELSE t

\* The lines that CMD reads one after the other.
RECURSIVE Lines(_)
Lines(t) == IF t = <<>> THEN <<>>
            ELSE LET e == Find(t, 1, LAMBDA c : c = "\n") IN <<Sub(t, 1, e - 1)>> \o Lines(Sub(t, e + 1, Len(t)))
=============================================================================
