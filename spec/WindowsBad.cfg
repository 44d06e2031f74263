SPECIFICATION Spec
CONSTANTS
 Floats = {"A", "B"}
 Kinds <- SomeKinds
 Shared = {"trajectory"}
 Longest = 3
 Report = FALSE
INVARIANTS OwnContentOnly Complete
CHECK_DEADLOCK FALSE
