SPECIFICATION Spec
CONSTANT MaxRows = 3
INVARIANTS Keeps Again Fails AllSame Scenario
CHECK_DEADLOCK FALSE
