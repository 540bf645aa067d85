SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Exact OneEach Refused Emitted
CHECK_DEADLOCK FALSE
