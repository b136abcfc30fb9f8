CONSTANTS
  LIds = {"a", "b c"}
  LSeps <- SomeSeps
  Deep = FALSE
SPECIFICATION Spec
INVARIANTS Emit OneMeaning
CHECK_DEADLOCK FALSE
