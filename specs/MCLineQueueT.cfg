SPECIFICATION Spec
CONSTANT MaxOps = 5
INVARIANTS NothingLost InOrder
CHECK_DEADLOCK FALSE
