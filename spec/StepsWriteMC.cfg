SPECIFICATION Spec
CONSTANTS MaxScripts = 2
INVARIANTS Laws Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
