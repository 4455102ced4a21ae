CONSTANTS
  MaxSegs = 2
  Forget = TRUE
INIT Init
NEXT Next
INVARIANTS RoundTrip PenOk Sensitive
CHECK_DEADLOCK FALSE
