CONSTANTS
  MCIds = {"a", "b", "c"}
  MCItemP <- NoP
  MCRelP <- NoP
  MCKinds = {"item.create", "item.delete", "nest", "free", "rel.create", "rel.delete", "item.fetch", "item.list", "item.in", "item.exists", "in?", "rel.fetch", "rel.list", "rel.exists", "to?", "from?", "world"}
  MaxLog = 1
  MaxRels = 2
  MaxIds = 3
  MCLists = 1
  Cmds <- MCCmds
SPECIFICATION SpecW
VIEW ViewW
CONSTRAINT BoundW
ACTION_CONSTRAINT Edge
INVARIANTS Forest RelsIntact TypeOK
PROPERTIES CreateFrame RelCreateFrame SetFrame ClearEmpties RelSetFrame NestFrame DeleteHandsUp RelDeleteFrame QueriesPure UndoInverse RejectedUnchanged
CHECK_DEADLOCK FALSE
