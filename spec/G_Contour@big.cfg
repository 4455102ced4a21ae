CONSTANTS
  K = 4
  N0 = 3
INIT Init
NEXT Next
INVARIANTS KeepsUp Derived Emit
CHECK_DEADLOCK FALSE
