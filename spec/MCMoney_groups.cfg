SPECIFICATION Spec
CONSTANTS
  Pieces <- PiecesGroups
  Longest <- EnvLongest
INVARIANTS Right Back Printed
CHECK_DEADLOCK FALSE
