SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet <- AlphabetT
INVARIANTS Preserved Unchanged SpaceSuppresses Whole Expands ExpandsLater
CHECK_DEADLOCK FALSE
