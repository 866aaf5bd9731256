SPECIFICATION Spec
CONSTANTS N = 2 Vals = {0, 1, 3, 7} MaxLen = 4
INVARIANTS Small Ordered Nothing Precise Shares Rising Split Emit
CHECK_DEADLOCK FALSE
