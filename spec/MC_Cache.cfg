INIT Init
NEXT Next
INVARIANTS AsNew Own
CHECK_DEADLOCK FALSE
