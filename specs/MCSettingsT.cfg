SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Names <- NamesT
  Defaults <- DefaultsT
INVARIANTS Effective
PROPERTIES Undisturbed
CHECK_DEADLOCK FALSE
