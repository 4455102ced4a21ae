CONSTANT MaxLen = 2
INIT Init
NEXT Next
INVARIANTS Composes Associates
CHECK_DEADLOCK FALSE
