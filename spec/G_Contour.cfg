CONSTANTS
  K = 3
  N0 = 2
INIT Init
NEXT Next
INVARIANTS KeepsUp Derived Emit
CHECK_DEADLOCK FALSE
