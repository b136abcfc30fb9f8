SPECIFICATION Spec
CONSTANTS
  XLen = 4
  XKinds = {"new","code","desc","data","clear","wrap","join"}
INVARIANTS Fine Show
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
