SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS Isolated
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
