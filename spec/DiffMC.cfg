SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MinLen = 0
  MaxLen = 2
  Vals = {0, 1, 2}
  MaxRecs = 2
  Emit = FALSE
  MayBreak = TRUE
INVARIANTS Exact Accepts Oracle
