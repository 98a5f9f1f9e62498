SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Writers = {1, 2, 3}
  Blocks = 3
  Strategy = "rename"
INVARIANTS Complete Visible Versions
