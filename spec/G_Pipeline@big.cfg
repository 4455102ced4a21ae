CONSTANTS
  K = 3
INIT Init
NEXT Next
INVARIANTS IsFaithful StayClosed Described InBounds Emit
CHECK_DEADLOCK FALSE
