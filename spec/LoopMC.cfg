SPECIFICATION Spec
CONSTANTS MaxT = 8500 MaxReq = 2 MaxLock = 2 MaxRun = 4 Step = 3000 ClearLate = FALSE NoReset = FALSE Careless = FALSE Forever = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Accepted Bounded OnlyGood Remembered Soon AfterSuccess Backoff
