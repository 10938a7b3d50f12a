SPECIFICATION Spec
VIEW Seen
INVARIANTS Closed Asked
PROPERTIES Apart Edge
CHECK_DEADLOCK FALSE
