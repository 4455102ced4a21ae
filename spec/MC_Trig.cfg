INIT Init
NEXT Next
INVARIANT Identities
CHECK_DEADLOCK FALSE
