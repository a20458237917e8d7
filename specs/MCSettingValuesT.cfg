SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Words <- WordsT
INVARIANTS RoundTrip Meaning OneEach
CHECK_DEADLOCK FALSE
