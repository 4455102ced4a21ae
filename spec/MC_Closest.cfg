CONSTANTS
  MaxCurves = 5
  MaxSteps = 8
INIT Init
NEXT Next
INVARIANTS TableOk LocateOk ImplOk NeighborsOk
CHECK_DEADLOCK FALSE
