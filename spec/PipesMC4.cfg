SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxText = 7
INVARIANTS WindowLaws LineLaws Emit
CHECK_DEADLOCK FALSE
