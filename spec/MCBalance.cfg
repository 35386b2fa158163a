SPECIFICATION Spec
CONSTANTS
  NRegs = 2
  NCurs = 2
  Longest <- EnvLongest
  Sample <- EnvSample
INVARIANTS Right Printed
CHECK_DEADLOCK FALSE
