CONSTANTS
  MaxDepth = 8
  N = 3
INIT Init
NEXT Next
INVARIANTS Lossless Known Sound Near Ends Monotone Reported
CHECK_DEADLOCK FALSE
