CONSTANTS
  Cap <- CapT
  Need <- NeedT
INIT TraceInit
NEXT TraceNext
CONSTRAINT Reach
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
