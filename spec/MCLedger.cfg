SPECIFICATION Spec
VIEW Seen
INVARIANTS Balanced Kept
PROPERTIES FailKeeps Edge
CHECK_DEADLOCK FALSE
