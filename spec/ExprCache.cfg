SPECIFICATION Spec
CONSTANTS
 States = {1, 2, 3}
 Slots = {1, 2}
 Servers = {1, 2}
 CompareBoth = TRUE
 Prefixed = TRUE
 Alphabet = {1, 2}
 MaxName = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
