SPECIFICATION Spec
VIEW Seen
INVARIANTS NoTwins InSync Findable Case
PROPERTIES Idempotent Undo KeepsOrder
CHECK_DEADLOCK FALSE
