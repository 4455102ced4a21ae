CONSTANTS
  K = 12
INIT Init
NEXT Next
INVARIANTS PathsAgree Emit
PROPERTIES OpenKept Monotone
CHECK_DEADLOCK FALSE
