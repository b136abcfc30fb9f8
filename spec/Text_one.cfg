SPECIFICATION Spec
CONSTANTS
  DIds = {"a","b"}
  DMaxRels = 0
  DEdits = 1
  DKind = "one"
  DJunk = {"x", "$$", "200 ok", "item create q", "world", "{", "]", "tree", "nil"}
INVARIANTS WritesAreComplete ReadWriteRead NoPart Show
VIEW View
CHECK_DEADLOCK FALSE
