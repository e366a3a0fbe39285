INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Described <- MDescribed
  IsFeed <- MIsFeed
  RowOf <- MRowOf
  MaxLen = 6
INVARIANTS AllAndOnly RaiseRule
