SPECIFICATION Spec
INVARIANTS OfItsTime Report
PROPERTY Stays
CHECK_DEADLOCK FALSE
