SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Horizon = 7
  MaxRevs = 2
INVARIANTS Alarm Exit
PROPERTIES Ends
