SPECIFICATION Spec
INVARIANTS Pieced Report
CHECK_DEADLOCK FALSE
