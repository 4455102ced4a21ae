CONSTANT N = 6
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
