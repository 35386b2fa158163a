SPECIFICATION Spec
CONSTANTS
  Slot = {s1, s2, s3}
  Content = {c1, c2}
  NoLedger = none
INVARIANT TypeOK
PROPERTY Independent
CHECK_DEADLOCK FALSE
