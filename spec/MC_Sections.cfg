INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  MinLen = 3
  Trim = 2
  MaxLen = 11
INVARIANTS Exactly Ordered RowsRight RowsInOrder
