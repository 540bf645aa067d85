SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
INVARIANTS Isolated
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
