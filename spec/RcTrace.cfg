SPECIFICATION Spec
INVARIANTS TypeOK ReleasedOnce NoLeak
ALIAS Show
