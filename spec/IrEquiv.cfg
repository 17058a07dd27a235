SPECIFICATION Spec
INVARIANTS SourceOk Preserved Terminates Observed Typed
ALIAS Show
CHECK_DEADLOCK FALSE
