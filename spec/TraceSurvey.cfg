INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Earlier <- TLt
  Between <- TBetween
  Reduce <- TReduce
