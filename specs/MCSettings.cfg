SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Names <- NamesQ
  Defaults <- DefaultsQ
INVARIANTS Effective
PROPERTIES Undisturbed
CHECK_DEADLOCK FALSE
