SPECIFICATION Spec
CONSTANTS ClearFirst = TRUE Survive = TRUE MaxReload = 3 Names = {"a"}
CHECK_DEADLOCK FALSE
INVARIANTS Current Alive Authenticated ActiveKept Others OthersKept LockedKept
