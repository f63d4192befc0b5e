CONSTANTS
  Prefix <- PrefixBytes
  Version = 1
  CountLen = 4
  BodyLen = 16
  OpCodes = {43, 45}
  Base = 256
INIT TraceInit
NEXT TraceNext
CONSTRAINT Reach
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
