SPECIFICATION Spec
CONSTANTS
  QIds = {"a","b"}
  QMaxRels = 1
  QMetas = TRUE
  QPrint = TRUE
INVARIANTS Show
CHECK_DEADLOCK FALSE
