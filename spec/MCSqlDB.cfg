SPECIFICATION MCSqlSpec
CONSTANTS
  NAccts = {1, 2, 3, 4}
  NTxns = {1, 2, 3}
  NSplits = {0, 1, 2, 3, 4, 5}
  Amounts <- SomeAmounts
INVARIANTS RefusedRight AcceptedRight EveryRow OneEach Chronological InOrder TreeKept EveryAccount Balances
CHECK_DEADLOCK FALSE
