SPECIFICATION Spec
CONSTANTS
  QIds = {"a"}
  QMaxRels = 1
  QMetas = TRUE
  QPrint = FALSE
INVARIANTS Exactly Show
CHECK_DEADLOCK FALSE
