CONSTANTS
  Objects = {}
  NameSet = {}
  Limits = {}
  Factors = {}
INIT TraceInit
NEXT TraceNext
CONSTRAINT Reach
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
