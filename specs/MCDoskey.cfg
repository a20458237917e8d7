SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet <- AlphabetQ
INVARIANTS Preserved Unchanged SpaceSuppresses Whole Expands ExpandsLater
CHECK_DEADLOCK FALSE
