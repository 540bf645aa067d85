SPECIFICATION Spec
CONSTANTS
  Enc = TRUE
  MaxChunks = 2
  Emit = TRUE
VIEW View
INVARIANTS TypeOK PollConsumes NoWedge SplitInvariant
PROPERTIES OneOutstanding
CHECK_DEADLOCK FALSE
