SPECIFICATION Spec
CONSTANTS
  XLen = 5
  XKinds = {"data","wrap","clear"}
INVARIANTS Fine Show
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
