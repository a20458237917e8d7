SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet <- AlphabetT
INVARIANTS Ordered Within NotDivided Divided Covered EndWord Groups
CHECK_DEADLOCK FALSE
