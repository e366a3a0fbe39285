INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Zero <- NZero
  Add <- MAdd
  MulI <- MMulI
