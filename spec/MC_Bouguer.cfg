INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
 Points = 4
 MaxLayers = 2
 Values = {0, 3}
 Zero = 0
 Add <- IAdd
 Sub <- ISub
 Mul <- IMul
 Amount <- IAmount
 Weight <- IWeight
 JobOf <- IJob
 RootsOf <- IRoots
INVARIANTS Stripped AtMantle Flat Cancel MeanKept
