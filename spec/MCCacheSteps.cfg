SPECIFICATION Spec
INVARIANTS Sound Bounded Distinct Right Refines
PROPERTIES Answered
CHECK_DEADLOCK FALSE
