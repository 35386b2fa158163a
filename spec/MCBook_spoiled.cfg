SPECIFICATION MCSpec
CONSTANTS
  NTxns = {1, 2}
  NPosts = {0, 1, 2, 3}
  TxnDays = {0, 1}
  PostDays <- SomeDays
  Values <- ValuesTwo
  Asserts <- AssertsTwo
  Prices <- PricesTwo
  Sample <- EnvSample
  Spoiled = TRUE
INVARIANTS Confluent Balanced Kept InOrder Running Asserted Transferred Again Solved
CHECK_DEADLOCK FALSE
