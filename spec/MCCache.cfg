SPECIFICATION Spec
VIEW Seen
INVARIANT Refines
PROPERTY Edge
CHECK_DEADLOCK FALSE
