SPECIFICATION MCSqlSpec
CONSTANTS
  NAccts = {1, 2}
  NTxns = {1, 2}
  NSplits = {0, 1, 2, 3}
  Amounts <- FewAmounts
INVARIANTS RefusedRight AcceptedRight EveryRow OneEach Chronological InOrder TreeKept EveryAccount Balances
CHECK_DEADLOCK FALSE
