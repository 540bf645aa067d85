SPECIFICATION Spec
INVARIANTS OneName Fit Emitted
CHECK_DEADLOCK FALSE
