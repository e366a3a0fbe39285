INIT MInit
NEXT PNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Zero = 0
  Add <- IAdd
  Mul <- IMul
  Neg <- INeg
  MaxLen = 6
INVARIANTS Recursion Silence UnitLength
