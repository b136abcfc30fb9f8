CONSTANTS
  MSlots = 2
  MKinds = {"new", "read", "app", "cmd"}
  MCmds = {"item.create", "item.delete", "item.set", "nest", "free", "rel.create"}
  MIds = {"a", "b"}
  MNames = {"w"}
  MMaxRels = 1
  MVals = {"x"}
  MStores = 1
  MPlaces = 1
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
INVARIANTS WorldsOk StoreNames
PROPERTIES Independent EmptyStart StoreFrame LoadBack TreeFrame
CHECK_DEADLOCK FALSE
