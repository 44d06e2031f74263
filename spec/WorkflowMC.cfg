INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvSorted InvCompletes InvAgain InvCommutes InvSplits InvNumbered InvFit
PROPERTY Frozen
CONSTANTS
  Floats = {"a"}
  Nos = {1, 2, 3}
  Vers = {1, 2}
  Clims = {1}
  Cfgs = {1, 2}
  Kinds = {"source", "config", "map", "forget", "fail"}
  Progs = {"map"}
