CONSTANTS
  LIds = {"a", "b c"}
  LSeps <- SomeSeps
  Deep = TRUE
SPECIFICATION Spec
INVARIANTS Emit OneMeaning
CHECK_DEADLOCK FALSE
