SPECIFICATION Spec
INVARIANTS Function Headed NoTwins Known Grouped RoundTrip Case
PROPERTIES Absorbing Growing
CHECK_DEADLOCK FALSE
