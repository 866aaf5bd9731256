CONSTANTS
 MaxOps = 4
 Vals = {"v"}
 KeySet = {"", "a", "b"}
 Tlt = "object"
SPECIFICATION Spec
INVARIANTS Scenario
CHECK_DEADLOCK FALSE
