SPECIFICATION Spec
INVARIANTS Unchanged Deterministic
ALIAS Show
CHECK_DEADLOCK FALSE
