CONSTANTS
  K = 2
INIT Init
NEXT Next
INVARIANTS AsNew Own Emit
CHECK_DEADLOCK FALSE
