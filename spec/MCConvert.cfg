SPECIFICATION Spec
CONSTANTS
  NCurs = 3
  Times_ = {0, 2, 3}
  Longest <- EnvLongest
  Sample <- EnvSample
INVARIANTS Printed Right
CHECK_DEADLOCK FALSE
