SPECIFICATION Spec
INVARIANTS Found Masked Apart
CHECK_DEADLOCK FALSE
