CONSTANT N = 2
INIT Init
NEXT Next
INVARIANTS Determinant Symmetric Finds OnLine
CHECK_DEADLOCK FALSE
