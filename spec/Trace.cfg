CONSTANTS
  Judge <- JudgeImpl
  Start <- StartImpl
INIT TraceInit
NEXT TraceNext
POSTCONDITION TraceJudged
CHECK_DEADLOCK FALSE
