CONSTANT MaxN = 16
INIT Init
NEXT Next
INVARIANTS Pascal AnswerOk BasisOk
CHECK_DEADLOCK FALSE
