SPECIFICATION Spec
INVARIANTS Bounded Finite Within Case
PROPERTIES Variant Terminates
CHECK_DEADLOCK FALSE
