SPECIFICATION Spec
INVARIANT Reachable
INVARIANT Dominates
INVARIANT Edges
ALIAS Show
