CONSTANTS
  K = 3
  C = 2
INIT Init
NEXT Next
INVARIANTS AllClosed OpenConnected NoPointLines Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
