SPECIFICATION Spec
CONSTANTS
  Count = 6
  Base = 253
  Starts = {253, 254, 256}
  Cuts = {0, 1, 33, 105}
  Emit = TRUE
INVARIANTS Contiguous NothingAfterEnd Complete OnlyWhenFinished
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
