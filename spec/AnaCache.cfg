SPECIFICATION Spec
INVARIANT Obeys
ALIAS Show
