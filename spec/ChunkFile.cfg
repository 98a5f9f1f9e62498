SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW view
CONSTANTS
  C = 2
  MaxSize = 7
  Target = 1
  MaxOps = 5
  Bugs = {}
  Gen = FALSE
INVARIANTS Refines
