------------------------------ MODULE MCPaths ------------------------------
(* The path operations against each other, on every path up to MaxLen.      *)
EXTENDS Paths
CONSTANTS MaxLen, Alphabet
VARIABLES p
AlphabetQ == {"/", "\\", ".", "a", ":", "?"}
Start == {<<>>, <<"/", "/", "?", "/">>, <<"/", "/", "?", "/", "u", "n", "c", "/">>}
Init == p \in Start
Next == Len(p) < MaxLen /\ \E c \in Alphabet : p' = Append(p, c)
NextL == Len(p) < MaxLen + (IF LongLen(p) > 0 THEN 4 ELSE 0) + (IF IsUnc(p) /\ LongLen(p) > 0 THEN 4 ELSE 0) /\ \E c \in Alphabet : p' = Append(p, c)
Spec == Init /\ [][NextL]_p
Norm == (IF IsRooted(p) THEN RootText(p) ELSE RootText(p)) \o Cleaned(p, "/")
CleanIdem == ~Ordinary(p) \/ CleanedOk(Norm, "/", Norm)
SamePlace == ~Ordinary(p) \/ Place(Norm) = Place(p)
NoDots == ~Ordinary(p) \/ \A k \in 1..Len(Elems(Norm)) : Elems(Norm)[k] # Dot /\ (Elems(Norm)[k] = Dots => ~Absolute(p) /\ \A m \in 1..k : Elems(Norm)[m] = Dots)
\* The parent and the child make up the path; going up always ends at a root.
UpDown == ~Ordinary(p) \/ Child(p) = <<>> \/ Place(Join(Parent(p), Child(p))) = Place(p)
UpShorter == Len(Parent(p)) <= Len(p) /\ (Parent(p) = p => IsRoot(p))
DirName == ~Ordinary(p) \/ \A k \in 0..Len(p) : DirOk(p, SubSeq(p, 1, k)) => Place(Join(SubSeq(p, 1, k), Name(p))) = Place(p)
DirExists == \E k \in 0..Len(p) : DirOk(p, SubSeq(p, 1, k))
StripSame == ~Ordinary(p) \/ Place(Stripped(p)) = Place(p)
NameNoSep == \A k \in 1..Len(Name(p)) : ~IsSep(Name(p)[k])
RootIsRoot == IsRoot(p) => Name(p) = <<>> /\ Child(p) = <<>>
=============================================================================
