SPECIFICATION Spec
CONSTANTS
  Extra = {0, 1, 9}
  Masks = {1, 64, 128}
INVARIANTS Own Short Apart
CHECK_DEADLOCK FALSE
