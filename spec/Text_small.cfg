SPECIFICATION Spec
CONSTANTS
  DIds = {"a","b"}
  DMaxRels = 1
  DEdits = 1
  DKind = "world"
  DJunk = {"x", "$$", "200 ok", "item create q", "world", "{", "]", "tree", "nil"}
INVARIANTS WritesAreComplete ReadWriteRead NoPart Show
VIEW View
CHECK_DEADLOCK FALSE
