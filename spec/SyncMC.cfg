SPECIFICATION Spec
CONSTANTS Revs = {r1, r2} Tags = {a, b} MaxEdit = 3 MaxLoss = 1 Compare = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS NoLostUpdate
PROPERTIES Converge Confirmed
