INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Earlier <- MBefore
  Between <- MBetween
  Reduce <- MReduce
  T = 4
  Places = {0, 60, 180}
  MaxRecs = 3
INVARIANTS SComplete SOrdered SAtFix MInside MRest MOrderFree
