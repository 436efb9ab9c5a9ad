SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1, 2, 3, 5}
 Tols = {0, 1, 2, 3}
 LoadInvalidates = TRUE
 BaseReloads = TRUE
 RefusalInvalidates = TRUE
INVARIANT Right Coherent
CHECK_DEADLOCK FALSE
