SPECIFICATION Spec
CONSTANTS
  First <- EnvFirst
  Last <- EnvLast
INVARIANTS Right Origin NoMore
CHECK_DEADLOCK FALSE
