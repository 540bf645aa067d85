SPECIFICATION Spec
CONSTANTS
  Lengths = {0, 1, 13, 14, 15, 23}
  Positions = {1, 2, 3, 4, 19, 20, 21}
INVARIANTS Whole Detected
CHECK_DEADLOCK FALSE
