SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Chars = {"0", "1", "9", "-", "+", ".", "e", " ", "{", "["}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
