SPECIFICATION Spec
INVARIANTS SourceOk NoCrash Accepted SameModule
ALIAS Show
CHECK_DEADLOCK FALSE
