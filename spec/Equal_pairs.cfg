SPECIFICATION Spec
CONSTANTS
  QIds = {"a","b"}
  QMaxRels = 1
  QMetas = FALSE
  QPrint = FALSE
INVARIANTS Exactly Show
CHECK_DEADLOCK FALSE
