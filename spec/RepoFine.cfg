SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW view
CONSTANTS
  MaxRevs = 3
  Pieces = {"a", "b"}
  MaxLen = 2
  MaxDamage = 1
  MaxCrash = 1
  MaxOps = 5
  Full = FALSE
  Gen = FALSE
  BugNoClean = FALSE
  BugMetaFirst = FALSE
  BugTrustCompare = FALSE
  BugBaseDistrusted = FALSE
INVARIANTS Durable TypeOK OpsAllowed
