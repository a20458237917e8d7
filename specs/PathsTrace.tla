---------------------------- MODULE PathsTrace ----------------------------
EXTENDS Paths, TraceLib
VARIABLES i
Plain(k, name, p, sep, got) == Match(name, k, CleanedOk(p, sep, got), TRUE)
Check(k, e) ==
  LET p == e.p IN
  /\ Match("rooted", k, e.rooted, IsRooted(p))
  /\ Match("root", k, e.root, IsRoot(p))
  /\ Match("unc", k, e.unc, IsUnc(p))
  /\ Match("unc (wide)", k, e.uncw, IsUnc(p))
  /\ (IsUnc(p) => Match("past unc", k, e.uncend, SubSeq(p, 1, RootLen(p))) /\ Match("past unc (wide)", k, e.uncendw, SubSeq(p, 1, RootLen(p))))
  /\ (At(p, 3) = "?" \/ Match("incomplete", k, e.incomplete, Incomplete(p)))
  /\ Match("device", k, e.device, NamesDevice(p))
  /\ Match("hidden", k, e.hidden, Hidden(p, FALSE)) /\ Match("hidden, trailing", k, e.hiddent, Hidden(p, TRUE))
  /\ Match("name", k, e.name, Name(p)) /\ Match("name (wide)", k, e.namew, Name(p)) /\ Match("name ptr", k, e.namep, Name(p))
  /\ Match("base name", k, e.base, BaseName(p))
  /\ Match("extension", k, e.ext, Extension(p)) /\ Match("extension ptr", k, e.extp, Extension(p))
  /\ Match("drive", k, e.drive, IF IsUnc(p) THEN <<>> ELSE Drive(p))
  /\ Match("directory", k, DirOk(p, e.dir), TRUE) /\ Match("directory in place", k, e.dir2, e.dir)
  /\ Match("stripped", k, e.strip, Stripped(p)) /\ Match("stripped (wide)", k, e.stripw, Stripped(p))
  /\ Match("parent", k, e.parent, Parent(p)) /\ Match("child", k, e.child, Child(p))
  /\ Match("moved", k, e.moved, Parent(p) # p)
  /\ Match("cleaned", k, CleanedOk(p, "\\", e.norm), TRUE) /\ Match("cleaned /", k, CleanedOk(p, "/", e.norm2), TRUE)
  /\ (~Ordinary(p) \/ Match("cleaned twice", k, e.again, e.norm))
  /\ Match("separators", k, e.seps, SepsOnly(p, "\\")) /\ Match("separators /", k, e.seps2, SepsOnly(p, "/"))
  \* The place is the same.
  /\ (~Ordinary(p) \/ Match("place of the cleaned path", k, Place(e.norm), Place(p)))
  /\ (~Ordinary(p) \/ Match("place of directory and name", k, Place(e.rejoin), Place(p)))
  /\ (~Ordinary(p) \/ Match("place of parent and child", k, Place(e.reparent), Place(p)))
Next(k, e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "path" -> Check(k, e)
    [] e.op = "join" -> Match("join", k, e.out, Join(e.l, e.r)) /\ Match("append", k, e.out2, Join(e.l, e.r))
    [] e.op = "up" -> \* Walking up to the root: each step is shorter, the last is a root.
         /\ \A n \in 1..Len(e.out) : Match("step up", k, e.out[n], Parent(IF n = 1 THEN e.p ELSE e.out[n - 1]))
         /\ Match("end", k, IsRoot(IF e.out = <<>> THEN e.p ELSE e.out[Len(e.out)]), TRUE)
    [] e.op = "tilde" -> 
         LET hit == At(e.p, 1) = "~" /\ At(e.p, 2) \in Seps \cup {""} IN
         /\ Match("expanded", k, e.ok, hit)
         /\ IF hit THEN Match("place", k, Place(e.out), Place(Join(e.home, From(e.p, SkipSep(e.p, 2))))) ELSE Match("unchanged", k, e.out, e.p)
Spec == i = 1 /\ [][i <= Len(Trace) /\ i' = i + 1 /\ Next(i, Trace[i])]_i
=============================================================================
