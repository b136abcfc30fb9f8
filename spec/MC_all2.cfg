CONSTANTS
  MCIds = {"a", "b"}
  MCItemP <- OneItemP
  MCRelP <- OneRelP
  MCKinds = {"item.create", "item.cof", "item.cos", "item.set", "item.clear", "item.delete", "rel.create", "rel.cof", "rel.cos", "rel.set", "rel.clear", "rel.delete", "nest", "free"}
  MaxLog = 1
  MaxRels = 1
  MaxIds = 2
  MCLists = 2
  Cmds <- MCCmds
SPECIFICATION SpecW
VIEW ViewW
CONSTRAINT BoundW
ACTION_CONSTRAINT Edge
INVARIANTS Forest RelsIntact TypeOK
PROPERTIES CreateFrame RelCreateFrame SetFrame ClearEmpties RelSetFrame NestFrame DeleteHandsUp RelDeleteFrame QueriesPure UndoInverse RejectedUnchanged
CHECK_DEADLOCK FALSE
