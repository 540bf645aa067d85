SPECIFICATION Spec
VIEW View
CONSTANT Masks = {1}
INVARIANTS Own CutShort TooLong TailIsWhole
CHECK_DEADLOCK FALSE
