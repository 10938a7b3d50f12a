SPECIFICATION Spec
INVARIANTS Once NoEmpty OnlyKnown StdOk
PROPERTIES Frame
CHECK_DEADLOCK FALSE
