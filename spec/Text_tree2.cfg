SPECIFICATION Spec
CONSTANTS
  DIds = {"a","b"}
  DMaxRels = 0
  DEdits = 2
  DKind = "tree"
  DJunk = {"x"}
INVARIANTS WritesAreComplete ReadWriteRead NoPart Show
VIEW View
CHECK_DEADLOCK FALSE
