CONSTANTS
  Profiles = {0, 1}
  Items = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS TypeOK OneOpinion SimLaws
PROPERTIES Local
CHECK_DEADLOCK FALSE
