SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxVisits = 5
INVARIANTS Looks Blanks Quotes Specials Up Only Names Here Apart Toggle
CHECK_DEADLOCK FALSE
