SPECIFICATION Spec
CONSTANT MaxLen = 5
CONSTANT Alphabet <- AlphabetT
INVARIANTS Whole Progress OnlyCodes NothingLost NoEsc Prefixes Visible Verbatims CountsAgree
CHECK_DEADLOCK FALSE
