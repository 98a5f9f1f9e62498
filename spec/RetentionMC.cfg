SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxT = 5
  MaxRevs = 3
  Bug = "none"
  Gen = FALSE
INVARIANTS RuleHolds Idempotent NoLeftovers
PROPERTIES NewestKept
