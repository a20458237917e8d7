SPECIFICATION Spec
CONSTANT Ids <- IdsT
CHECK_DEADLOCK FALSE
POSTCONDITION PrintDepth
