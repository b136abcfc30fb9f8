CONSTANTS
  MSlots = 2
  MKinds = {"new", "read", "cmd", "tnew", "tworld", "tread", "tadd"}
  MCmds = {"item.create", "nest"}
  MIds = {"a", "b"}
  MNames = {"w"}
  MMaxRels = 0
  MVals = {"x"}
  MStores = 1
  MPlaces = 1
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
INVARIANTS WorldsOk StoreNames
PROPERTIES Independent EmptyStart StoreFrame LoadBack TreeFrame
CHECK_DEADLOCK FALSE
