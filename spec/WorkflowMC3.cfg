INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvSorted InvCompletes InvAgain InvCommutes InvSplits InvNumbered InvFit
PROPERTY Frozen
CONSTANTS
  Floats = {"a", "b"}
  Nos = {1, 2}
  Vers = {1}
  Clims = {1, 2}
  Cfgs = {1}
  Kinds = {"source", "clim", "map", "both", "forget"}
  Progs = {"map"}
