CONSTANT MaxLen = 3
INIT Init
NEXT Next
INVARIANTS Composes Associates
CHECK_DEADLOCK FALSE
