INIT SInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  HasParser <- MHasParser
  IsFix <- MIsFix
  IsDated <- MIsDated
  DateOf <- MDateOf
  FixOf <- MFixOf
  MaxFiles = 1
  MaxLines = 0
  Times = {1}
  Decims = {0}
  Lons <- LonsB
  Lens = {1, 2, 3, 4, 5}
  Emit = TRUE
INVARIANTS Increasing ExactTimes FirstWins SentinelRule SameMod360 NoJumpLeft MajoritySide
