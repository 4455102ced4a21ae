CONSTANTS
  N = 2
  M = 3
INIT Init
NEXT Next
INVARIANTS Product Unit Right Singular Agrees AgreesNot TransposeOk
CHECK_DEADLOCK FALSE
