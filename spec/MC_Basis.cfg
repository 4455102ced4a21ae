CONSTANT MaxN = 9
INIT Init
NEXT Next
INVARIANTS Pascal AnswerOk BasisOk
CHECK_DEADLOCK FALSE
