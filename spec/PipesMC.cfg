SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxText = 5
INVARIANTS WindowLaws LineLaws Emit
CHECK_DEADLOCK FALSE
