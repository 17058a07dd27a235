SPECIFICATION Spec
INVARIANT Accepted
ALIAS Show
CHECK_DEADLOCK FALSE
