SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Kinds = {"backup", "gc", "verify", "restore", "rm", "distrust", "tags", "expire", "clean"}
  Bugs = {}
  Quiet = FALSE
INVARIANTS OneBackup DataKept Serial Outcome RestoreFails
