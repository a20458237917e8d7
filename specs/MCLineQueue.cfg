SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANTS NothingLost InOrder
CHECK_DEADLOCK FALSE
