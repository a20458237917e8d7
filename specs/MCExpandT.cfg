SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet <- AlphabetQ
  Modes <- ModesT
INVARIANTS Plain Kept Off Parts Ordered Protected SameModes Shown Whole Last Covered EachOnce EachWord EveryOne
CHECK_DEADLOCK FALSE
