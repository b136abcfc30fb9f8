SPECIFICATION Spec
CONSTANTS
  DIds = {"a"}
  DMaxRels = 0
  DEdits = 2
  DKind = "one"
  DJunk = {"x", "$$", "200 ok", "item create q", "world", "{", "]", "tree", "nil"}
INVARIANTS WritesAreComplete ReadWriteRead NoPart Show
VIEW View
CHECK_DEADLOCK FALSE
