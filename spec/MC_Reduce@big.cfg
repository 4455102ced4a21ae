CONSTANTS
  Size = 10
  K = 3
  Limit = 4
  MaxTurn = 2
INIT Init
NEXT Next
INVARIANTS Contiguous Covered AllButLastSimple AlmostSimple FailsRightly Longest Progress
CHECK_DEADLOCK FALSE
