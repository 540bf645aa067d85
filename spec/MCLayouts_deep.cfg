SPECIFICATION Spec
VIEW View
CONSTANT Masks = {1, 2, 4, 8, 16, 128}
INVARIANTS Own CutShort TooLong TailIsWhole
CHECK_DEADLOCK FALSE
