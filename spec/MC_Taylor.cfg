INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Zero <- NZero
  Add <- NAdd
  MulI <- NMulI
  MaxDegree = 10
INVARIANTS Exact EdgesEmpty SameLength
