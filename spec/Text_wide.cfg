SPECIFICATION Spec
CONSTANTS
  DIds = {"a","b","c"}
  DMaxRels = 1
  DEdits = 1
  DKind = "world"
  DJunk = {"x", "nil"}
INVARIANTS WritesAreComplete ReadWriteRead NoPart Show
VIEW View
CHECK_DEADLOCK FALSE
