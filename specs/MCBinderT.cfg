SPECIFICATION Spec
CONSTANTS
  MaxNodes = 512
  MaxKeys = 16
  MaxIn = 7
  Alphabet <- AlphabetT
INVARIANTS OnceInOrder Fitting Longest Reading Params
CHECK_DEADLOCK FALSE
