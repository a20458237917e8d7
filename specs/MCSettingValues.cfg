SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Words <- WordsQ
INVARIANTS RoundTrip Meaning OneEach
CHECK_DEADLOCK FALSE
