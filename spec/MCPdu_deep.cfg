SPECIFICATION Spec
CONSTANTS
  Extra = {0, 1, 2, 9, 40}
  Masks = {1, 2, 4, 8, 16, 32, 64, 128, 255}
INVARIANTS Own Short Apart
CHECK_DEADLOCK FALSE
