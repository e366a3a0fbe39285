INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  FirstYear = 1850
  LastYear = 2410
INVARIANTS Agrees Epoch
