INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Described <- TextDescribed
  IsFeed <- TextIsFeed
  RowOf <- TextRowOf
