INIT MInit
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Recovered Prefix Closed
