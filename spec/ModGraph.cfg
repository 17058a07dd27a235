SPECIFICATION Spec
INVARIANTS Keeps Reports Stable Graph Sites Recursion Components
ALIAS Show
CHECK_DEADLOCK FALSE
