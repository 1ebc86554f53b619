SPECIFICATION Spec
INVARIANTS RoundTrip Distinct Sized
CHECK_DEADLOCK FALSE
