SPECIFICATION Spec
CONSTANTS MaxLen = 6 MaxVisits = 7
INVARIANTS Looks Blanks Quotes Specials Up Only Names Here Apart Toggle
CHECK_DEADLOCK FALSE
