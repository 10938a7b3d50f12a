SPECIFICATION Spec
INVARIANTS Lossless Prefixed Shape SplitLossless Greedy Classified2 AltsOk FilterOk Local Case
PROPERTIES Forward
CHECK_DEADLOCK FALSE
