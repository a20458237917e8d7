SPECIFICATION Spec
CONSTANTS
  MaxNodes = 512
  MaxKeys = 16
CHECK_DEADLOCK FALSE
POSTCONDITION PrintDepth
