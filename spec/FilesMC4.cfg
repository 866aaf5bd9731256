CONSTANTS
 MaxOps = 4
SPECIFICATION Spec
INVARIANTS WellFormed Scenario
PROPERTIES Kept Fresh FailuresKeep
CHECK_DEADLOCK FALSE
