SPECIFICATION Spec
INVARIANT NothingLost
INVARIANT Clean
INVARIANT InOrder
INVARIANT Complete
INVARIANT NoWait
INVARIANT Progress
CHECK_DEADLOCK FALSE
