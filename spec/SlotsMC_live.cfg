SPECIFICATION Spec
CONSTANTS
  J = {1, 2}
  Limits = {1, 2}
  MaxTime = 2
  MaxReq = 2
  MaxLimit = 1
  MaxRestart = 1
  Fault = "none"
INVARIANTS Accepted Bounded OneRun Exact
PROPERTY Served
CHECK_DEADLOCK FALSE
