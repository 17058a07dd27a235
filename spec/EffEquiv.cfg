SPECIFICATION Spec
INVARIANTS SourceOk Preserved Terminates Observed
ALIAS Show
CHECK_DEADLOCK FALSE
