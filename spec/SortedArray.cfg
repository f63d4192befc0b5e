CONSTANTS
  Values = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  MaxLen = 6
SPECIFICATION Spec
INVARIANTS Ordered AlgosOK
CHECK_DEADLOCK FALSE
