INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Zero <- NZero
  Add <- NAdd
  Mul <- NMul
  Neg <- NNeg
