SPECIFICATION Spec
CONSTANTS
  NCurs = 5
  Times_ = {0, 1, 3, 4, 6, 7, 10}
  Longest <- EnvLongest
  Sample <- EnvSample
INVARIANTS Printed Right
CHECK_DEADLOCK FALSE
