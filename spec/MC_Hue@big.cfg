CONSTANT Starts = {0, 1, 5, 17, 59, 60, 72, 73, 100, 120, 180, 240, 287, 300, 359}
SPECIFICATION Spec
INVARIANTS Complete InRange HalfSaturated Periodic
PROPERTY NewEachTime
CHECK_DEADLOCK FALSE
