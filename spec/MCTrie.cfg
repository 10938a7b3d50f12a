SPECIFICATION Spec
INVARIANTS SameWords Nodes Prefixes Language Longest
CHECK_DEADLOCK FALSE
