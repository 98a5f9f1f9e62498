SPECIFICATION Spec
CONSTANTS Servers = {"a", "b", "c"} MaxCnt = 1 MaxT = 2400 MaxFail = 1 MaxDie = 1 MaxRun = 360 Ties = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Justified Finished Backed Efficient
