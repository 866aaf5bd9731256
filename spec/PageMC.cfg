CONSTANT Max = 5
SPECIFICATION Spec
INVARIANTS Exact Scenario
PROPERTY Ends
CHECK_DEADLOCK FALSE
