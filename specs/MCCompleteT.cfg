SPECIFICATION Spec
CONSTANTS Items = 3
MaxCmds = 5
CHECK_DEADLOCK FALSE
INVARIANTS Around Nothing Undone Single Several Cycle Back AllIn Point
