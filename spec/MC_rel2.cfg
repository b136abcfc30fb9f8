CONSTANTS
  MCIds = {"a", "b"}
  MCItemP <- NoP
  MCRelP <- OneRelP
  MCKinds = {"item.create", "item.delete", "rel.create", "rel.delete", "rel.cof", "rel.set", "rel.clear"}
  MaxLog = 1
  MaxRels = 4
  MaxIds = 2
  MCLists = 1
  Cmds <- MCCmds
SPECIFICATION SpecW
VIEW ViewW
CONSTRAINT BoundW
ACTION_CONSTRAINT Edge
INVARIANTS Forest RelsIntact TypeOK
PROPERTIES CreateFrame RelCreateFrame SetFrame ClearEmpties RelSetFrame NestFrame DeleteHandsUp RelDeleteFrame QueriesPure UndoInverse RejectedUnchanged
CHECK_DEADLOCK FALSE
