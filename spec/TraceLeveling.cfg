INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Zero <- NZero
  Add <- NAdd
  Mul <- NMul
  MulI <- NMulI
  Neg <- NNeg
  Missing <- LMissing
  Metric <- LMetric
  Scale <- LScale
  Course <- LCourse
  Force <- LForce
