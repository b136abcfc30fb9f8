SPECIFICATION Spec
CONSTANTS
  QIds = {"a","b"}
  QMaxRels = 1
  QMetas = FALSE
  QPrint = TRUE
INVARIANTS Exactly Show
CHECK_DEADLOCK FALSE
