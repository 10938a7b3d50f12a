SPECIFICATION Spec
INVARIANTS Lawful Report
CHECK_DEADLOCK FALSE
