CONSTANTS
  Wide <- WideChars
  W = 7
  N = 3
  X = 1
SPECIFICATION Spec
INVARIANTS RowShown ViewShown SomeView
CHECK_DEADLOCK FALSE
