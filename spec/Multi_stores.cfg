CONSTANTS
  MSlots = 1
  MKinds = {"new", "api", "save", "load", "place"}
  MCmds = {"item.create"}
  MIds = {"a"}
  MNames = {"x", "y"}
  MMaxRels = 0
  MVals = {}
  MStores = 2
  MPlaces = 2
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
INVARIANTS WorldsOk StoreNames
PROPERTIES Independent EmptyStart StoreFrame LoadBack TreeFrame
CHECK_DEADLOCK FALSE
