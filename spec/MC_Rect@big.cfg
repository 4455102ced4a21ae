CONSTANTS N = 2
          K = 4
INIT Init
NEXT Next
INVARIANTS Tight Pairwise
CHECK_DEADLOCK FALSE
