SPECIFICATION Spec
INVARIANTS Bounded Accounting Listed Step Agree PreferredOk Case
PROPERTIES Progress
CHECK_DEADLOCK FALSE
