------------------------------ MODULE MCExpand ------------------------------
(* Declarative properties of Expanded, on every line up to MaxLen characters. *)
EXTENDS Expand
CONSTANTS MaxLen, Alphabet, Modes
VARIABLES t, mode, room
Starts == {<<>>, Ch("!!:s"), Ch("!!:Gs/a"), Ch("a !?a"), Ch("\"'!!:"), Ch("^a^")}
AlphabetQ == {"!", "a", ":", "1", "-", "\"", "'", "^", "$"}
AlphabetS == {"!", "a", ":", "s", "/", "G", "p", "&"}
ModesQ == {"on", "not_quoted", "off"}
ModesT == {"on", "not_quoted", "not_squoted", "not_dquoted", "off"}
Lines == <<Ch("b aa/a.a a\"x y\""), Ch("a"), Ch("aa a:1 >>b")>>
Old == [old |-> <<"a">>, new |-> <<"c">>]
Init == t \in Starts /\ mode \in Modes /\ room = (IF t = <<>> THEN MaxLen ELSE MaxLen - 1)
Next == room > 0 /\ room' = room - 1 /\ (\E c \in Alphabet : t' = Append(t, c)) /\ UNCHANGED mode
Spec == Init /\ [][Next]_<<t, mode, room>>

X == Expanded(Lines, t, mode, Old)
Has(c) == \E i \in 1..Len(t) : t[i] = c
\* Lines that refer to nothing stay as they are; so does every line that fails.
Plain == (~Has("!") /\ At(t, 1) # "^") => X.r = 0
Kept == X.r < 1 => X.t = t
Off == mode = "off" => X.r = 0
\* Only the references change: the line with each reference replaced is the result.
Parts == LET RECURSIVE go(_, _)
             go(k, from) == IF k > Len(X.list) THEN SubSeq(t, from, Len(t))
                            ELSE SubSeq(t, from, X.list[k].at) \o X.list[k].t \o go(k + 1, X.list[k].at + X.list[k].len + 1)
         IN X.r > 0 => X.t = go(1, 1)
Ordered == \A k \in 1..Len(X.list) : X.list[k].len > 0 /\ (k > 1 => X.list[k - 1].at + X.list[k - 1].len <= X.list[k].at)
\* A reference is never inside quotes that protect it, unless an expansion brought the quotes.
Protected == LET Q(q) == \A k \in 1..Len(X.list) : (X.list[k].at > 0 /\ k = 1) => QuoteAt(t, X.list[k].at) \notin q IN
  /\ (mode = "not_quoted" => Q({"'", "\""})) /\ (mode = "not_squoted" => Q({"'"})) /\ (mode = "not_dquoted" => Q({"\""}))
\* A line that protects nothing expands the same in every mode that expands.
SameModes == (mode # "off" /\ ~Has("\"") /\ ~Has("'") /\ X.r >= 0 /\ \A k \in 1..Len(X.list) : \A i \in 1..Len(X.list[k].t) : X.list[k].t[i] \notin {"\"", "'"})
             => X = Expanded(Lines, t, "on", Old)
\* Shown and not run only when it says so.
Shown == X.r = 2 => Has("p")
\* The whole of the last line, its last word, its first argument.
Whole == (Str(t) \in {"!!", "!-1", "!a"} /\ mode # "off") => X.t = Lines[3]
Last == (Str(t) \in {"!$", "!!$", "!:$"} /\ mode # "off") => X.t = Ch("b")
\* Words: every character that is no space is in exactly one; a space is in one only inside quotes or brackets.
Covered == LET k == Tokens(t) IN \A i \in 1..Len(t) : t[i] \notin Fields => Cardinality({n \in 1..Len(k) : k[n][1] <= i /\ i < k[n][2]}) = 1
\* Once in each word.
EachOnce == LET w == Split(t, Fields)
                r == Replace(t, <<"a">>, <<"a", "a">>, FALSE, TRUE)
            IN (\A i \in 1..Len(t) : t[i] \in {"a", "s", "p", "G", "1", "-"}) => r = (IF Has("a") THEN <<SubSeq(t, 1, Find(t, 1, LAMBDA c : c = "a")) \o SubSeq(t, Find(t, 1, LAMBDA c : c = "a"), Len(t)), 1>> ELSE <<t, 0>>)
EachWord == LET two == t \o <<" ">> \o t
                r == Replace(two, <<"a">>, <<"c", "c">>, FALSE, TRUE)
                o == Replace(t, <<"a">>, <<"c", "c">>, FALSE, FALSE)
            IN (\A i \in 1..Len(t) : t[i] \in {"a", "s", "p", "G", "1", "-"}) => r = <<o[1] \o <<" ">> \o o[1], 2 * o[2]>>
\* Every one.
EveryOne == LET r == Replace(t, <<"a">>, <<"c", "a">>, TRUE, FALSE) IN r[2] = Cardinality({i \in 1..Len(t) : t[i] = "a"}) /\ Len(r[1]) = Len(t) + r[2]
=============================================================================
