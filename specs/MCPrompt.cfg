SPECIFICATION Spec
CONSTANTS Progs = 3 Bodies = 3 MaxLines = 1
INVARIANTS Fresh Once Apart AtOnceDone Stops Told Pinned
CHECK_DEADLOCK FALSE
