------------------------------ MODULE MCRecall ------------------------------
(* All small histories and settings, and every few keys and commands.       *)
EXTENDS Recall
CONSTANTS Lines, MaxCmds, Cmds
Texts == {<<"a">>, <<"a", "b">>, <<"b", "a">>}
AllCmds == Commands \ {"fetch-history", "backward-char"}
MoveCmds == {"previous-history", "next-history", "beginning-of-history", "end-of-history"}
SearchCmds == {"history-search-backward", "history-search-forward", "history-substring-search-backward", "history-substring-search-forward"}
Some == AllCmds \ {"history-search-forward", "history-substring-search-forward", "beginning-of-history"}
VARIABLES s, p, c, n, new \* p, c: the state before, and what was done; new: the new line as it was left
vars == <<s, p, c, n, new>>
Load(sq, st) == LET RECURSIVE go(_, _) go(x, k) == IF k > Len(sq) THEN x ELSE go(Save(x, sq[k]), k + 1) IN NewLine(Fresh(go(st, 1)))
Init == /\ \E k \in 0..Lines : \E f \in [1..k -> Texts] : \E sticky \in {0, 1} : \E dupe \in {"add", "erase_prev"} :
           s = Load(<<>> \o [x \in 1..k |-> f[x]], Begin(0, 1, sticky, dupe))
        /\ p = s /\ c = "" /\ n = 0 /\ new = <<>>
Ended == {"accept-line", "operate-and-get-next"}
Step(r, what) ==
  /\ s' = r /\ p' = s /\ c' = what /\ n' = n + 1
  /\ new' = IF what \in Ended \cup {"add-history", "remove-history"} THEN (IF r.w = N(r) THEN r.text ELSE IF r.saved # <<>> THEN r.saved[1].t ELSE <<>>)
            ELSE IF r.w = N(r) THEN r.text ELSE IF s.w = N(s) THEN s.text ELSE new
Next == /\ n < MaxCmds
        /\ \/ \E x \in Cmds : (x = "remove-history" => [k \in DOMAIN s.h |-> s.h[k].id] = [k \in DOMAIN s.db |-> s.db[k].id]) /\ Step(Do(s, x, 1, FALSE), x)
           \/ Step(Key(s, <<"a">>), "key")
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Point == s.pt \in 0..Len(s.text) /\ s.w \in 0..N(s)
\* What is saved changes only when a line is accepted, added or removed.
Files == s.db = p.db \/ c \in {"accept-line", "add-history", "remove-history"}
\* Accepting saves what was accepted, at the end, and loses nothing else.
Has(q, t) == \E k \in DOMAIN q : q[k].t = t
Accepted == c = "accept-line" => /\ (p.text = <<>> => s.db = p.db)
                                 /\ (p.text # <<>> => Has(s.db, p.text))
                                 /\ (\A k \in DOMAIN p.db : Has(s.db, p.db[k].t))
                                 /\ (p.sticky = 0 /\ p.text # <<>> => s.db[Len(s.db)].t = p.text)
                                 /\ (\A k \in DOMAIN s.h : s.h[k].t = s.db[k].t /\ s.h[k].u = 0)
Removed == c = "remove-history" => \/ s.db = p.db
                                   \/ Len(s.db) = Len(p.db) - 1 /\ \E k \in DOMAIN p.db : p.db[k].t = p.text /\ s.db = Cut(p.db, k)
\* Moving to and fro, every line is as it was left.
Left(st) == [k \in DOMAIN st.h |-> IF k = st.w + 1 /\ st.u # st.h[k].u THEN st.text ELSE st.h[k].t]
Kept == c \in MoveCmds \cup SearchCmds => Left(s) = Left(p) /\ (s.w < N(s) /\ s.w # p.w => s.text = s.h[s.w + 1].t)
NewKept == (s.w = N(s) => s.text = new) /\ (s.saved # <<>> => s.saved[1].t = new)
\* A recalled line that was not edited is as it was saved.
Own == \A k \in DOMAIN s.h : s.h[k].u = 0 => s.h[k].t = s.h[k].o
To == /\ (c = "previous-history" /\ ~p.use => s.w = Max2(0, p.w - 1))
      /\ (c = "next-history" => s.w = Min2(N(s), p.w + 1))
      /\ (c = "beginning-of-history" => s.w = 0 \/ (p.use /\ s.w <= p.w)) /\ (c = "end-of-history" => s.w = N(s))
\* What is found has what was typed, and is the nearest such line unlike the one before.
Ahead == c \in {"history-search-backward", "history-substring-search-backward"}
Fits(t) == IF s.fl = "p" THEN Take(t, Len(s.sstr)) = s.sstr ELSE \E k \in 1..Len(t) : Take(SubSeq(t, k, Len(t)), Len(s.sstr)) = s.sstr
Hit == (c \in SearchCmds /\ s.slen > 0 /\ s.w # p.w /\ p.w < N(p)) => Fits(s.text)
First == (c \in SearchCmds /\ s.slen > 0 /\ ~Goes(p, Kind(c))) =>
  LET fit == {k \in 0..N(s) - 1 : (IF Ahead THEN k < p.w ELSE k > p.w) /\ Fits(s.h[k + 1].t)}
  IN IF fit = {} THEN s.text = p.text ELSE s.w \in fit /\ \A k \in fit : IF Ahead THEN k <= s.w ELSE k >= s.w
Next1 == (c \in SearchCmds /\ s.slen > 0 /\ Goes(p, Kind(c)) /\ p.last = Kind(c) /\ p.prev = <<p.text>> /\ p.sp = p.w) =>
  LET fit == {k \in 0..N(s) - 1 : (IF Ahead THEN k < p.w ELSE k > p.w) /\ Fits(s.h[k + 1].t)}
      new1 == {k \in fit : s.h[k + 1].t # p.text}
  IN IF new1 = {} THEN s.text = p.text ELSE s.w \in new1 /\ \A k \in new1 : IF Ahead THEN k <= s.w ELSE k >= s.w
\* Going on from the line reused: it is not saved again, and the next one is at hand.
Sticky == (c = "accept-line" /\ p.sticky = 1 /\ p.w < N(p) /\ p.u = 0 /\ p.text # <<>> /\ p.text = p.h[p.w + 1].o /\ p.h[p.w + 1].u = 0 /\ Len(p.h) = Len(p.db)) =>
  s.db = p.db /\ Do(s, "previous-history", 1, FALSE).text = p.text /\ (Len(s.h) = N(p) /\ p.w + 1 < N(p) => Do(s, "next-history", 1, FALSE).w = p.w + 1)
Got == (c = "operate-and-get-next" /\ p.w + 1 < N(p) /\ Found(p) < 0) => s.w = p.w + 1 /\ s.text = s.h[s.w + 1].t
=============================================================================
