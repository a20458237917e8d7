SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT Alphabet <- AlphabetQ
INVARIANTS Whole Progress OnlyCodes NothingLost NoEsc Prefixes Visible Verbatims CountsAgree
CHECK_DEADLOCK FALSE
