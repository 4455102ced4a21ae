CONSTANT MaxSplits = 3
INIT Init
NEXT Next
INVARIANTS PartOk EvalOk DerivOk RaiseOk ReverseOk HullOk RangeOk CrossOk LengthOk FrameOk
CHECK_DEADLOCK FALSE
