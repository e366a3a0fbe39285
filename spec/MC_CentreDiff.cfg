INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = 6
INVARIANTS First Second
