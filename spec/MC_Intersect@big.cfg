CONSTANTS
  MaxDepth = 14
  N = 5
INIT Init
NEXT Next
INVARIANTS Lossless Known Sound Near Ends Monotone Reported
CHECK_DEADLOCK FALSE
