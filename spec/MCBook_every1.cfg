SPECIFICATION MCSpec
CONSTANTS
  NTxns = {1}
  NPosts = {1, 2}
  TxnDays = {0}
  PostDays <- NoDays
  Values <- ValuesTwo
  Asserts <- AssertsTwo
  Prices <- PricesTwo
  Sample = 0
  Spoiled = TRUE
INVARIANTS Confluent Balanced Kept InOrder Running Asserted Transferred Again Solved
CHECK_DEADLOCK FALSE
