CONSTANT K = 2
INIT Init
NEXT Next
INVARIANTS Enough Emit
CHECK_DEADLOCK FALSE
