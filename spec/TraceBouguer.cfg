INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Zero <- NZero
  Add <- NAdd
  Sub <- NSub
  Mul <- NMul
  Amount <- FAmount
  Weight <- FWeight
  JobOf <- BJob
  RootsOf <- BRoots
