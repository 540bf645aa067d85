SPECIFICATION Spec
CONSTANT Changes = 3
INVARIANTS Usable Unusable Emitted
CHECK_DEADLOCK FALSE
VIEW Settings0
