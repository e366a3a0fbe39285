INIT MInit
NEXT SpNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Zero = 0
  Add <- IAdd
  Sub <- ISub
  Mul <- IMul
  Amount <- IAmount
  Weight <- IWeight
  Values = {0, 1, 4}
INVARIANTS AllPass Uniform NoMean Symmetric
