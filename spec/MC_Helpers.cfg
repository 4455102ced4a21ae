CONSTANTS
  K = 1
INIT Init
NEXT Next
INVARIANTS RootsSound Complete Linear Meet Doubles Ratios
CHECK_DEADLOCK FALSE
