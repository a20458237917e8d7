------------------------------- MODULE Binder -------------------------------
(***************************************************************************)
(* Key bindings (clink/lib/src/binder.cpp, bind_resolver.cpp).             *)
(* Keys are byte values.  A group of bindings is a tree of key sequences;  *)
(* in a binding with parameters, the token P stands for one or more digits. *)
(*   tree:  [nodes: the tree's nodes, as paths of tokens, oldest first,    *)
(*           binds: path -> sequence of [m, id], oldest first]             *)
(*   binder b: [tree: group -> tree, names: group -> name, used: number of *)
(*           nodes in use (there are MaxNodes)]                            *)
(*   resolver r: [group, keys: keys not yet disposed of, path: where the   *)
(*           keys have led, pend: keys remain to be walked again,          *)
(*           cands: bindings that fit, left to offer, offering, cur: the   *)
(*           binding offered or None]                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxNodes, MaxKeys
P == 1000
Star == 42
ESC == 27
Digits == 48..57
BindableEsc == <<27, 91, 50, 55, 59, 50, 55, 126>> \* ESC [27;27~
None == [len |-> 0]
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE 0
Max2(a, b) == IF a < b THEN b ELSE a
Front(s) == SubSeq(s, 1, Len(s) - 1)

(* Notation for key sequences:  \C-x ^x \M-x \M-C-x \e \t \n \r \0 \x x    *)
Bad == <<-1>>
RECURSIVE Chord(_, _)
Chord(t, i) ==
  LET c == At(t, i) n == At(t, i + 1)
      then(keys, k) == LET rest == Chord(t, k) IN IF rest = Bad THEN Bad ELSE keys \o rest
  IN IF i > Len(t) THEN <<>>
     ELSE IF c = 94 THEN IF i = Len(t) THEN <<94>> ELSE then(<<n % 32>>, i + 2)
     ELSE IF c # 92 THEN then(<<c>>, i + 1)
     ELSE IF i = Len(t) THEN <<92>>
     ELSE IF n = 77 \* M
          THEN IF At(t, i + 2) # 45 \/ i + 3 > Len(t) THEN Bad
               ELSE IF At(t, i + 3) = 67 /\ At(t, i + 4) = 45
                    THEN IF i + 5 > Len(t) THEN Bad ELSE then(<<ESC, At(t, i + 5) % 32>>, i + 6)
                    ELSE then(<<ESC>>, i + 3)
     ELSE IF n = 67 \* C
          THEN IF At(t, i + 2) # 45 \/ i + 3 > Len(t) THEN Bad ELSE then(<<At(t, i + 3) % 32>>, i + 4)
     ELSE then(<<CASE n = 101 -> ESC [] n = 116 -> 9 [] n = 110 -> 10 [] n = 114 -> 13 [] n = 48 -> 0 [] OTHER -> n>>, i + 2)
Translate(t) == LET c == Chord(t, 1) IN IF c = <<ESC>> THEN BindableEsc ELSE c

---------------------------------------------------------------------------
(* Binding.                                                                *)
EmptyTree == [nodes |-> <<>>, binds |-> [x \in {} |-> <<>>]]
NewBinder == [tree |-> [g \in {1} |-> EmptyTree], names |-> [g \in {1} |-> <<>>], used |-> 2]
CreateGroup(b, name) ==
  IF name = <<>> \/ b.used + 2 > MaxNodes THEN [b |-> b, r |-> -1]
  ELSE LET g == b.used + 1 IN
       [b |-> [tree |-> [x \in DOMAIN b.tree \cup {g} |-> IF x = g THEN EmptyTree ELSE b.tree[x]],
               names |-> [x \in DOMAIN b.tree \cup {g} |-> IF x = g THEN name ELSE b.names[x]], used |-> b.used + 2], r |-> g]
FindGroup(b, name) == IF name = <<>> THEN 1 ELSE
  LET s == {g \in DOMAIN b.names : b.names[g] = name} IN IF s = {} THEN -1 ELSE CHOOSE g \in s : TRUE

HasNode(tree, p) == p = <<>> \/ \E i \in 1..Len(tree.nodes) : tree.nodes[i] = p
Bound(tree, p) == IF p \in DOMAIN tree.binds THEN tree.binds[p] ELSE <<>>
Bind(b, g, text, m, id, params) ==
  LET keys == Translate(text)
      path == [i \in 1..Len(keys) |-> IF params /\ keys[i] = Star THEN P ELSE keys[i]]
      tree == b.tree[g]
      missing == {k \in 1..Len(path) : ~HasNode(tree, SubSeq(path, 1, k))}
      again == missing = {} /\ Bound(tree, path) # <<>>
      room == MaxNodes - b.used
      need == Cardinality(missing) + (IF again THEN 1 ELSE 0)
      \* what fits is added even when not everything does
      first == Len(path) - Cardinality(missing) + 1
      added == [k \in 1..(IF need <= room THEN Cardinality(missing) ELSE Max2(0, room)) |-> SubSeq(path, 1, first + k - 1)]
      tree2 == [tree EXCEPT !.nodes = @ \o added]
      tree3 == [tree2 EXCEPT !.binds = [x \in DOMAIN tree.binds \cup {path} |-> IF x = path THEN Append(Bound(tree, path), [m |-> m, id |-> id]) ELSE tree.binds[x]]]
  IN IF keys = Bad THEN [b |-> b, r |-> FALSE]
     ELSE IF need <= room THEN [b |-> [b EXCEPT !.tree[g] = tree3, !.used = @ + need], r |-> TRUE]
     ELSE [b |-> [b EXCEPT !.tree[g] = tree2, !.used = @ + Len(added)], r |-> FALSE]

---------------------------------------------------------------------------
(* Resolving.                                                              *)
\* Where a key leads from a node, or <<-1>> : nowhere.
Nowhere == <<-1>>
Step1(tree, p, key) ==
  IF p # <<>> /\ p[Len(p)] = P /\ key \in Digits THEN p
  ELSE LET fit == {i \in 1..Len(tree.nodes) : LET q == tree.nodes[i] IN
                     Len(q) = Len(p) + 1 /\ Front(q) = p /\ (q[Len(q)] = key \/ (q[Len(q)] = P /\ key \in Digits))}
       IN IF fit = {} THEN Nowhere ELSE tree.nodes[CHOOSE i \in fit : \A j \in fit : i <= j]
Leaf(tree, p) == ~\E i \in 1..Len(tree.nodes) : LET q == tree.nodes[i] IN Len(q) = Len(p) + 1 /\ Front(q) = p
\* Walking keys from p: [path, stop].
Walk(tree, p0, keys) ==
  LET RECURSIVE go(_, _)
      go(p, k) == IF k > Len(keys) THEN [path |-> p, stop |-> FALSE]
                  ELSE LET q == Step1(tree, p, keys[k]) IN
                       IF q = Nowhere THEN [path |-> p, stop |-> TRUE]
                       ELSE IF Leaf(tree, q) THEN [path |-> q, stop |-> TRUE] ELSE go(q, k + 1)
  IN go(p0, 1)
\* How the keys match a path: [len, ps] (keys, and values of the parameters).
RECURSIVE Value(_, _, _)
Value(keys, k, v) == IF At(keys, k) \in Digits THEN Value(keys, k + 1, (v * 10 + keys[k] - 48) % 65536) ELSE [k |-> k, v |-> v]
Spans(path, keys) ==
  LET RECURSIVE go(_, _, _)
      go(i, k, ps) == IF i > Len(path) THEN [len |-> k - 1, ps |-> ps]
                      ELSE IF path[i] = P THEN LET x == Value(keys, k, 0) IN go(i + 1, x.k, Append(ps, x.v)) ELSE go(i + 1, k + 1, ps)
  IN go(1, 1, <<>>)
\* The bindings that fit the keys, best first: those of the whole path, then
\* of ever shorter ones; a binding of no keys (a catch-all) takes one key.
RECURSIVE Fits(_, _, _)
Fits(tree, path, keys) ==
  LET bs == Bound(tree, path) s == Spans(path, keys)
      here == [i \in 1..Len(bs) |-> [m |-> bs[i].m, id |-> bs[i].id, len |-> Max2(1, s.len), ps |-> s.ps]]
  IN IF path = <<>> THEN here ELSE here \o Fits(tree, Front(path), keys)

NewResolver(g) == [group |-> g, keys |-> <<>>, path |-> <<>>, pend |-> FALSE, offering |-> FALSE, cands |-> <<>>, cur |-> None, count |-> 0]
Reset(r) == NewResolver(r.group)
\* count: keys in the resolver's buffer, including those disposed of.
DoStep(b, r, key) ==
  IF r.count >= MaxKeys THEN [r |-> Reset(r), done |-> FALSE]
  ELSE LET w == Walk(b.tree[r.group], IF r.pend THEN <<>> ELSE r.path, IF r.pend THEN Append(r.keys, key) ELSE <<key>>)
       IN [r |-> [r EXCEPT !.keys = Append(@, key), !.count = @ + 1, !.path = w.path, !.pend = FALSE], done |-> w.stop]
Offer(b, r) ==
  LET tree == b.tree[r.group]
      cs == IF r.offering THEN r.cands ELSE Fits(tree, r.path, r.keys)
  IN IF cs = <<>> THEN [r |-> Reset(r), out |-> None]
     ELSE [r |-> [r EXCEPT !.offering = TRUE, !.cands = Tail(cs), !.cur = Head(cs)], out |-> Head(cs)]
DoNext(b, r) ==
  IF ~r.pend THEN Offer(b, r)
  ELSE IF r.keys = <<>> \/ Len(r.keys) >= MaxKeys THEN [r |-> Reset(r), out |-> None]
  ELSE Offer(b, [r EXCEPT !.pend = FALSE, !.path = Walk(b.tree[r.group], <<>>, r.keys).path, !.offering = FALSE])
DoClaim(r) ==
  IF r.cur = None THEN r
  ELSE [r EXCEPT !.keys = SubSeq(@, r.cur.len + 1, Len(@)), !.path = <<>>, !.pend = TRUE, !.offering = FALSE, !.cands = <<>>, !.cur = None]
DoSetGroup(b, r, g) ==
  IF g \notin DOMAIN b.tree \/ g = r.group THEN r
  ELSE [r EXCEPT !.group = g, !.path = <<>>, !.pend = TRUE, !.offering = FALSE, !.cands = <<>>]
\* Nothing is being read.
Done(r) == r.path = <<>> /\ ~r.offering

\* Would the keys be handled?  1 : a binding; -1 : not here, and not by anything
\* else; 0 : not here.
CatchallOnlyPrintable == 255
IsBound(b, g, seq) ==
  LET tree == b.tree[g]
      RECURSIVE go(_, _)
      go(p, k) == IF k > Len(seq) THEN IF Leaf(tree, p) THEN 1 ELSE 0
                  ELSE LET q == Step1(tree, p, seq[k]) IN
                       IF q # Nowhere THEN go(q, k + 1)
                       ELSE IF Bound(tree, <<>>) = <<>> THEN 0
                       ELSE IF ~(seq[1] < 32 \/ seq[1] = 127) THEN 1
                       ELSE IF Bound(tree, <<>>)[1].id = CatchallOnlyPrintable THEN -1 ELSE 0
  IN IF seq = <<>> THEN 0 ELSE go(<<>>, 1)
=============================================================================
