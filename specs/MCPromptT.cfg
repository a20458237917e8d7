SPECIFICATION Spec
CONSTANTS Progs = 6 Bodies = 4 MaxLines = 2
INVARIANTS Fresh Once Apart AtOnceDone Stops Told Pinned
CHECK_DEADLOCK FALSE
