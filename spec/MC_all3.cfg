CONSTANTS
  MCIds = {"a", "b", "c"}
  MCItemP <- OneItemP
  MCRelP <- NoP
  MCKinds = {"item.create", "item.set", "item.clear", "item.delete", "rel.create", "rel.delete", "nest", "free"}
  MaxLog = 1
  MaxRels = 1
  MaxIds = 3
  MCLists = 1
  Cmds <- MCCmds
SPECIFICATION SpecW
VIEW ViewW
CONSTRAINT BoundW
ACTION_CONSTRAINT Edge
INVARIANTS Forest RelsIntact TypeOK
PROPERTIES CreateFrame RelCreateFrame SetFrame ClearEmpties RelSetFrame NestFrame DeleteHandsUp RelDeleteFrame QueriesPure UndoInverse RejectedUnchanged
CHECK_DEADLOCK FALSE
