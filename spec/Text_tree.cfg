SPECIFICATION Spec
CONSTANTS
  DIds = {"a","b","c"}
  DMaxRels = 0
  DEdits = 1
  DKind = "tree"
  DJunk = {"x", "$$", "200 ok", "item create q", "world", "{", "]", "tree", "nil"}
INVARIANTS WritesAreComplete ReadWriteRead NoPart Show
VIEW View
CHECK_DEADLOCK FALSE
