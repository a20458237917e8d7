SPECIFICATION Spec
CONSTANTS
  MaxNodes = 512
  MaxKeys = 16
  MaxIn = 6
  Alphabet <- AlphabetQ
INVARIANTS OnceInOrder Fitting Longest Reading Params
CHECK_DEADLOCK FALSE
