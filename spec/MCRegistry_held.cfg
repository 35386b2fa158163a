SPECIFICATION Spec
CONSTANTS
  First = 1
  Second = 1
  Held = TRUE
INVARIANTS Right Same Locks
PROPERTIES Forever Termination
CHECK_DEADLOCK TRUE
