SPECIFICATION Spec
CONSTANTS MaxLen = 3 Hists = 4 Scripts = 4
INVARIANTS Extends AsShown AllOfIt StillThere WordEnds FullEnds Current Calm Listed
CHECK_DEADLOCK FALSE
