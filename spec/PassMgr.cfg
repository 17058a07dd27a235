SPECIFICATION Spec
INVARIANT SoFar
INVARIANT Ended
ALIAS Show
