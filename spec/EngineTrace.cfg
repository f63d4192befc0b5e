CONSTANTS
  Names = {1, 2, 3, 4, 5}
  Pairs = {0, 1, 2}
  Ids = {0, 1, 2}
  Values = {1, 2, 3}
INIT TraceInit
NEXT TraceNext
CONSTRAINT Reach
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
