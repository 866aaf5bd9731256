SPECIFICATION Spec
CONSTANTS MaxText = 10
 MaxScript = 2
 MaxScripts = 3
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
