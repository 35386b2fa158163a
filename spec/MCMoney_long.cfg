SPECIFICATION Spec
CONSTANTS
  Pieces <- PiecesLong
  Longest <- EnvLongest
INVARIANTS Right Back Printed
CHECK_DEADLOCK FALSE
