SPECIFICATION Spec
CONSTANTS
  Lengths = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 30, 31, 46, 47, 62}
  Positions <- All
INVARIANTS Whole Detected
CHECK_DEADLOCK FALSE
