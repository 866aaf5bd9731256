SPECIFICATION Spec
CONSTANTS MaxText = 7
 MaxScript = 1
 MaxScripts = 2
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
