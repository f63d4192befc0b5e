CONSTANTS
  Prefix <- PfxMC
  Version = 1
  CountLen = 1
  BodyLen = 1
  OpCodes = {1, 2}
  Base = 3
  MaxLen = 12
SPECIFICATION Spec
INVARIANTS Idempotent WellFormed KeepsAll OrderKept Disjoint MarkedIsBad Interrupted Again FailedOpen
CHECK_DEADLOCK FALSE
