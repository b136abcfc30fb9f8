CONSTANTS
  MSlots = 1
  MKinds = {"tnew", "tread", "tadd", "tdel"}
  MCmds = {}
  MIds = {"a", "b", "c", "d"}
  MNames = {}
  MMaxRels = 0
  MVals = {}
  MStores = 1
  MPlaces = 1
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
INVARIANTS WorldsOk StoreNames
PROPERTIES Independent EmptyStart StoreFrame LoadBack TreeFrame
CHECK_DEADLOCK FALSE
