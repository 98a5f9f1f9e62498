SPECIFICATION Spec
CONSTANTS
  J = {1, 2, 3}
  Limits = {1, 2}
  MaxTime = 2
  MaxReq = 2
  MaxLimit = 1
  MaxRestart = 1
  Fault = "none"
INVARIANTS Accepted Bounded OneRun Exact
CHECK_DEADLOCK FALSE
