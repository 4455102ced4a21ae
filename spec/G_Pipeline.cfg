CONSTANTS
  K = 2
INIT Init
NEXT Next
INVARIANTS IsFaithful StayClosed Described InBounds Emit
CHECK_DEADLOCK FALSE
