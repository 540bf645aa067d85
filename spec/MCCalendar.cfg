SPECIFICATION Spec
INVARIANTS RoundTrip DayNumbers Refused
CHECK_DEADLOCK FALSE
