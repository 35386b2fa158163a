SPECIFICATION Spec
CONSTANTS
  NRegs = 3
  NCurs = 3
  Longest <- EnvLongest
  Sample <- EnvSample
INVARIANTS Right Printed
CHECK_DEADLOCK FALSE
