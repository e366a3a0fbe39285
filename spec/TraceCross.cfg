INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  MinLen = 1000
  Trim = 420
