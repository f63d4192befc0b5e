CONSTANTS
  Values <- TValues
  MaxLen = 0
INIT TraceInit
NEXT TraceNext
CONSTRAINT Reach
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
