SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
INVARIANTS NothingLost Bounded LifeCycle
CHECK_DEADLOCK FALSE
