SPECIFICATION Spec
CONSTANTS
 Floats = {"A", "B"}
 Kinds <- SomeKinds
 Shared = {}
 Longest = 3
 Report = TRUE
INVARIANTS OwnContentOnly Complete
PROPERTY Finishes
CHECK_DEADLOCK FALSE
