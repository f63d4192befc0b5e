CONSTANTS
  Profiles = {0, 1}
  Items = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS Shape
PROPERTIES Refines
CHECK_DEADLOCK FALSE
