SPECIFICATION Spec
CONSTANTS
  QIds = {"a"}
  QMaxRels = 1
  QMetas = TRUE
  QPrint = TRUE
INVARIANTS Exactly Show
CHECK_DEADLOCK FALSE
