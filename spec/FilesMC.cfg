CONSTANTS
 MaxOps = 3
SPECIFICATION Spec
INVARIANTS WellFormed Scenario
PROPERTIES Kept Fresh FailuresKeep
CHECK_DEADLOCK FALSE
