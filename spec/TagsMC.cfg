SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Bug = "none"
INVARIANTS Exact OneAtATime
PROPERTIES Refusal
