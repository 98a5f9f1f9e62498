SPECIFICATION Spec
CONSTANTS MaxT = 200000 MaxReq = 0 MaxLock = 0 MaxRun = 11 Step = 100000 ClearLate = FALSE NoReset = FALSE Careless = FALSE Forever = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Accepted Bounded OnlyGood Remembered Soon AfterSuccess Backoff
