CONSTANTS
  MCIds = {"a", "b", "c", "d"}
  MCItemP <- NoP
  MCRelP <- NoP
  MCKinds = {"item.create", "item.delete", "nest", "free"}
  MaxLog = 1
  MaxRels = 0
  MaxIds = 4
  MCLists = 3
  Cmds <- MCCmds
SPECIFICATION SpecW
VIEW ViewW
CONSTRAINT BoundW
ACTION_CONSTRAINT Edge
INVARIANTS Forest RelsIntact TypeOK
PROPERTIES CreateFrame RelCreateFrame SetFrame ClearEmpties RelSetFrame NestFrame DeleteHandsUp RelDeleteFrame QueriesPure UndoInverse RejectedUnchanged
CHECK_DEADLOCK FALSE
