SPECIFICATION Spec
CONSTANTS
  XLen = 6
  XKinds = {"wrap"}
INVARIANTS Fine Show
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
