CONSTANTS
  Wide <- WideChars
  W = 8
  N = 4
  X = 1
SPECIFICATION Spec
INVARIANTS RowShown ViewShown SomeView
CHECK_DEADLOCK FALSE
