SPECIFICATION Spec
CONSTANTS N = 2
MaxLines = 1
CHECK_DEADLOCK FALSE
INVARIANTS OneAtATime StartsFree NoStall NoSpin Settled NoGhosts Pending
