SPECIFICATION Spec
CONSTANTS Items = 2
MaxCmds = 3
CHECK_DEADLOCK FALSE
INVARIANTS Around Nothing Undone Single Several Cycle Back AllIn Point
