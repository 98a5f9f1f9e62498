SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Horizon = 14
  Q = 0
  Bug = "none"
INVARIANTS AlgoRight NoneSkipped Future CaughtUp
