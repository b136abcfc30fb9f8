CONSTANTS
  LIds = {"a", "b c", "in"}
  LSeps <- ManySeps
  Deep = FALSE
SPECIFICATION Spec
INVARIANTS Emit OneMeaning
CHECK_DEADLOCK FALSE
