CONSTANTS
  N = 3
  M = 1
INIT Init
NEXT Next
INVARIANTS Product Unit Right Singular Agrees AgreesNot TransposeOk
CHECK_DEADLOCK FALSE
