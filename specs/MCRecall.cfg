SPECIFICATION Spec
CONSTANTS Lines = 3
MaxCmds = 4
Cmds <- AllCmds
CHECK_DEADLOCK FALSE
INVARIANTS Point Files Accepted Removed Kept NewKept Own To Hit First Next1 Sticky Got
