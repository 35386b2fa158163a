SPECIFICATION MCSpec
CONSTANTS
  NTxns = {1, 2}
  NPosts = {1, 2, 3}
  TxnDays = {0}
  PostDays <- NoDays
  Values <- ValuesTwo
  Asserts <- AssertsTwo
  Prices <- PricesTwo
  Sample <- EnvSample
  Spoiled = FALSE
INVARIANTS Confluent Balanced Kept InOrder Running Asserted Transferred Again Solved
CHECK_DEADLOCK FALSE
