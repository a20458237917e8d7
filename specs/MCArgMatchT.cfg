SPECIFICATION Spec
CONSTANTS MaxOps = 5 MaxWords = 2
INVARIANTS OfferedIsRecognized Sound FlagsDontCount Positions Back
CHECK_DEADLOCK FALSE
