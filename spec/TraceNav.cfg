INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  HasParser <- TextHasParser
  IsFix <- TextIsFix
  IsDated <- TextIsDated
  DateOf <- TextDateOf
  FixOf <- TextFixOf
