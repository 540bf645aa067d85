SPECIFICATION Spec
CONSTANTS
  Enc = FALSE
  MaxReads = 3
  Emit = TRUE
VIEW View
INVARIANTS TypeOK CleanSuccess FreshAfterConnect Works
PROPERTIES OneRequest HalvesApart
CHECK_DEADLOCK FALSE
