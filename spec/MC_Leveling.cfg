INIT MInit
NEXT MNext
CONSTANTS
 MaxLen = 26
 Zero <- IZero
 Add <- IAdd
 Mul <- IMul
 MulI <- IMulI
 Neg <- INeg
 Missing <- IMissing
 Metric <- IMetric
 Scale <- IScale
 Course <- ICourse
 Force <- IForce
INVARIANT LEdges
INVARIANT Kinematics
INVARIANT Turning
INVARIANT Steady
INVARIANT Straight
CHECK_DEADLOCK FALSE
