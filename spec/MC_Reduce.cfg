CONSTANTS
  Size = 7
  K = 2
  Limit = 3
  MaxTurn = 2
INIT Init
NEXT Next
INVARIANTS Contiguous Covered AllButLastSimple AlmostSimple FailsRightly Longest Progress
CHECK_DEADLOCK FALSE
