SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Emit = TRUE
INVARIANTS NothingLost Bounded LifeCycle
CHECK_DEADLOCK FALSE
