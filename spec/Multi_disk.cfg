CONSTANTS
  MSlots = 2
  MKinds = {"new", "api", "save", "load"}
  MCmds = {"item.create", "item.delete", "item.set", "meta.name"}
  MIds = {"a"}
  MNames = {"x", "y"}
  MMaxRels = 0
  MVals = {"v"}
  MStores = 1
  MPlaces = 1
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
INVARIANTS WorldsOk StoreNames
PROPERTIES Independent EmptyStart StoreFrame LoadBack TreeFrame
CHECK_DEADLOCK FALSE
