INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvSorted InvCompletes InvAgain InvCommutes InvSplits InvNumbered InvFit
PROPERTY Frozen
CONSTANTS
  Floats = {"a", "b"}
  Nos = {2}
  Vers = {1, 2}
  Clims = {1}
  Cfgs = {1}
  Kinds = {"source", "edit", "both"}
  Progs = {"map", "series", "fit"}
