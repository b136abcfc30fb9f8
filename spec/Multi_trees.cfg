CONSTANTS
  MSlots = 1
  MKinds = {"tnew", "tread", "tadd", "tdel", "probe"}
  MCmds = {}
  MIds = {"a", "b", "c"}
  MNames = {}
  MMaxRels = 0
  MVals = {"x"}
  MStores = 1
  MPlaces = 1
SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
INVARIANTS WorldsOk StoreNames
PROPERTIES Independent EmptyStart StoreFrame LoadBack TreeFrame
CHECK_DEADLOCK FALSE
