SPECIFICATION Spec
CONSTANTS
  Pieces <- PiecesChars
  Longest <- EnvLongest
INVARIANTS Right Back Printed
CHECK_DEADLOCK FALSE
