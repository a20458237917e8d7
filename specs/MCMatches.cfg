SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {"a", "A", "-", "/", "*", "?"}
  MaxName = 2
  MaxNeedle = 2
  MaxCands = 1
  Types = {2, 7}
INVARIANTS Only Narrows Exact Extends CommonBegins WildIsPrefix SubOnlyThen RestrictTwice StarMore Order
