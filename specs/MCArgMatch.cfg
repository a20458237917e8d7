SPECIFICATION Spec
CONSTANTS MaxOps = 3 MaxWords = 2
INVARIANTS OfferedIsRecognized Sound FlagsDontCount Positions Back
CHECK_DEADLOCK FALSE
