INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Nodes = 12
  First = 9
  Ages = 36
  Scale = 4800
INVARIANTS Bounds Agree Inverts Search
PROPERTIES Warmer
