SPECIFICATION Spec
CONSTANT MaxRows = 4
INVARIANTS Keeps Again Fails AllSame Scenario
CHECK_DEADLOCK FALSE
