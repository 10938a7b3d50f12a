SPECIFICATION Spec
VIEW Seen
INVARIANT Prefix
PROPERTIES Apart Complete Edge
CHECK_DEADLOCK FALSE
