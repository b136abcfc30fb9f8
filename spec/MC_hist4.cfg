CONSTANTS
  MCIds = {"a", "b"}
  MCItemP <- NoP
  MCRelP <- NoP
  MCKinds = {"item.create", "item.delete", "item.fetch"}
  MaxLog = 4
  MaxRels = 0
  MaxIds = 2
  MCLists = 1
  Cmds <- MCCmds
SPECIFICATION Spec
CONSTRAINT Bound
ACTION_CONSTRAINT HEdge
INVARIANTS Forest RelsIntact TypeOK LogChain
PROPERTIES CreateFrame RelCreateFrame SetFrame ClearEmpties RelSetFrame NestFrame DeleteHandsUp RelDeleteFrame QueriesPure UndoInverse RejectedUnchanged
CHECK_DEADLOCK FALSE
