CONSTANT K = 3
INIT Init
NEXT Next
INVARIANTS Matched Emit
PROPERTY Restores
CHECK_DEADLOCK FALSE
