SPECIFICATION Spec
INVARIANTS Idempotent Scenario
CHECK_DEADLOCK FALSE
