SPECIFICATION Spec
INVARIANTS InStep NoReserved EndsThere
CHECK_DEADLOCK FALSE
