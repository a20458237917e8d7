SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet <- AlphabetQ
INVARIANTS Ordered Within NotDivided Divided Covered EndWord Groups
CHECK_DEADLOCK FALSE
