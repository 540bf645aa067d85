SPECIFICATION Spec
CONSTANTS
  Count = 4
  Base = 253
  Starts = {253, 255}
  Cuts = {0, 1, 105}
  Emit = TRUE
INVARIANTS Contiguous NothingAfterEnd Complete OnlyWhenFinished
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
