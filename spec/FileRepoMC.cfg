SPECIFICATION Spec
CONSTANTS Procs = {p1, p2, p3} MaxRev = 2 MaxSrc = 1 Late = TRUE Glob1st = TRUE Locks = TRUE
SYMMETRY Sym
CHECK_DEADLOCK FALSE
INVARIANTS Intact Listed2
