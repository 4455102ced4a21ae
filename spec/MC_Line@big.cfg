CONSTANT N = 3
INIT Init
NEXT Next
INVARIANTS Determinant Symmetric Finds OnLine
CHECK_DEADLOCK FALSE
