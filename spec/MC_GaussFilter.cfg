INIT MInit
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Zero = 0
  Add <- IAdd
  Mul <- IMul
  MaxLen = 7
INVARIANTS Convolution KeepsConstant
