SPECIFICATION Spec
CONSTANTS N = 3 Vals = {0, 1, 2, 5, 9} MaxLen = 5
INVARIANTS Small Ordered Nothing Precise Shares Rising Split Emit
CHECK_DEADLOCK FALSE
