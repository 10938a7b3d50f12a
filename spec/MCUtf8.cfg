SPECIFICATION Spec
INVARIANTS Agree Report
CHECK_DEADLOCK FALSE
