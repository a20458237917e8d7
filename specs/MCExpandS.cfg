SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet <- AlphabetS
  Modes <- ModesQ
INVARIANTS Plain Kept Off Parts Ordered Protected SameModes Shown Whole Last Covered EachOnce EachWord EveryOne
CHECK_DEADLOCK FALSE
