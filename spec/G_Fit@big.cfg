CONSTANT K = 3
INIT Init
NEXT Next
INVARIANTS Enough Emit
CHECK_DEADLOCK FALSE
