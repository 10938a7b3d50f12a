SPECIFICATION Spec
INVARIANTS Function Unique Pure Sound Complete WarnOk RoundTrip Case
PROPERTIES Absorbing Growing
CHECK_DEADLOCK FALSE
