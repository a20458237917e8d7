SPECIFICATION Spec
CONSTANTS N = 3
MaxLines = 0
CHECK_DEADLOCK FALSE
INVARIANTS OneAtATime StartsFree NoStall NoSpin Settled NoGhosts Pending
