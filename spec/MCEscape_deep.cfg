SPECIFICATION Spec
CONSTANTS
  Alphabet = {13, 27, 141, 14, 15, 65}
  N = 7
INVARIANTS InStep NoReserved Whole
CHECK_DEADLOCK FALSE
