SPECIFICATION MCSpec
CONSTANTS
  NTxns = {1, 2}
  NPosts = {1, 2}
  TxnDays = {0, 1}
  PostDays <- NoDays
  Values <- ValuesOne
  Asserts <- AssertsFew
  Prices <- NoPrices
  Sample = 0
  Spoiled = FALSE
INVARIANTS Confluent Balanced Kept InOrder Running Asserted Transferred Again Solved
CHECK_DEADLOCK FALSE
