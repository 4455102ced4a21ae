CONSTANT Starts = {0, 100}
SPECIFICATION Spec
INVARIANTS Complete InRange HalfSaturated Periodic
PROPERTY NewEachTime
CHECK_DEADLOCK FALSE
