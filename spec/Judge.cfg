INIT JInit
NEXT JNext
INVARIANT Inv
CHECK_DEADLOCK FALSE
