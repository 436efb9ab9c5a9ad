SPECIFICATION Spec
CONSTANTS
 Top = 2000
 Cap = 700
 Eps = 100
 Rnd = 1
 Side = 12
INVARIANT Balanced
PROPERTY Lands
CHECK_DEADLOCK FALSE
