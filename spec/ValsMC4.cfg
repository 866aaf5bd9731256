SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Chars = {"0", "1", "9", "-", "+", ".", "e", " ", "{", "["}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
