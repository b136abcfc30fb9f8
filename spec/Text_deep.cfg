SPECIFICATION Spec
CONSTANTS
  DIds = {"a"}
  DMaxRels = 1
  DEdits = 2
  DKind = "world"
  DJunk = {"x", "nil"}
INVARIANTS WritesAreComplete ReadWriteRead NoPart Show
VIEW View
CHECK_DEADLOCK FALSE
