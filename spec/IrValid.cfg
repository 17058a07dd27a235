SPECIFICATION Spec
INVARIANT Scope
INVARIANT Uses
INVARIANT Local
INVARIANT Whole
INVARIANT Arity
ALIAS Show
