SPECIFICATION Spec
INVARIANTS Refusal OpsMatch BlocksMatch RegionsMatch ValuesMatch Integrity
ALIAS Show
CHECK_DEADLOCK FALSE
