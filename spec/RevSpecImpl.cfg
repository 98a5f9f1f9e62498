SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Bug = "none"
INVARIANTS Agree NoDuplicates
