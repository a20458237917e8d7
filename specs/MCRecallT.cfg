SPECIFICATION Spec
CONSTANTS Lines = 2
MaxCmds = 7
Cmds <- Some
CHECK_DEADLOCK FALSE
INVARIANTS Point Files Accepted Removed Kept NewKept Own To Hit First Next1 Sticky Got
