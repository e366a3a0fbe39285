INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Zero <- NZero
  Add <- MAdd
  Mul <- MMul
