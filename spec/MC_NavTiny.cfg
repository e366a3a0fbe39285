INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  HasParser <- MHasParser
  IsFix <- MIsFix
  IsDated <- MIsDated
  DateOf <- MDateOf
  FixOf <- MFixOf
  MaxFiles = 2
  MaxLines = 1
  Times = {1, 2, 3}
  Decims = {0, 2}
  Lons <- LonsA
  Emit = FALSE
INVARIANTS Increasing ExactTimes FirstWins SentinelRule
