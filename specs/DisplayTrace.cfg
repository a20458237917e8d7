SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION PrintDepth
CONSTANT Wide <- WideChars
