CONSTANTS
 MaxOps = 2
 Docs0 <- Start
SPECIFICATION Spec
INVARIANTS Inv Scenario
CHECK_DEADLOCK FALSE
