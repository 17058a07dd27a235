SPECIFICATION Spec
CONSTANTS
  Th = {1, 2, 3, 4}
  MaxTag = 1
INVARIANTS Allowed OneWinner ReadyBeforeUse NotStuck
CHECK_DEADLOCK FALSE
