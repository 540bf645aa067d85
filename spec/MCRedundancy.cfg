SPECIFICATION Spec
CONSTANT Bytes0 = {0}
INVARIANT Differ
CHECK_DEADLOCK FALSE
