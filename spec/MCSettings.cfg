SPECIFICATION Spec
CONSTANT Changes = 2
INVARIANTS Usable Unusable Emitted
CHECK_DEADLOCK FALSE
VIEW Settings0
