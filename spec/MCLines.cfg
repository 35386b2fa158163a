SPECIFICATION MCSpec
CONSTANTS
  Longest <- EnvLongest
  Sample <- EnvSample
INVARIANTS Printed Tree References Chronological Reported
PROPERTIES OnlyLast NothingLost
CHECK_DEADLOCK FALSE
