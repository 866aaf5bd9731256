CONSTANTS
 MaxOps = 3
 Vals = {"v", "w"}
 KeySet = {"", "a", "b"}
 Tlt = "object"
SPECIFICATION Spec
INVARIANTS Prefix Complete FaultReported WellFormed ReadsOk
PROPERTIES Refines Terminates
CHECK_DEADLOCK FALSE
