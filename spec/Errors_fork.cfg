SPECIFICATION Spec
CONSTANTS
  XLen = 6
  XKinds = {"data"}
INVARIANTS Fine Show
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
