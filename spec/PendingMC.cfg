SPECIFICATION Spec
CONSTANTS N = 2 MaxReq = 3 MaxFail = 2 Claims = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Once Kept
PROPERTIES Carried Cleared
