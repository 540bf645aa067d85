SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Exact OneEach Refused Emitted
CHECK_DEADLOCK FALSE
