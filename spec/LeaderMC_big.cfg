SPECIFICATION Spec
CONSTANTS Servers = {"a", "b", "c"} MaxCnt = 2 MaxT = 3000 MaxFail = 2 MaxDie = 1 MaxRun = 420 Ties = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Justified Finished Backed Efficient
