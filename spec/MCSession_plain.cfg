SPECIFICATION Spec
CONSTANTS
  Enc = FALSE
  MaxChunks = 2
  Emit = TRUE
VIEW View
INVARIANTS TypeOK PollConsumes NoWedge SplitInvariant
PROPERTIES OneOutstanding
CHECK_DEADLOCK FALSE
