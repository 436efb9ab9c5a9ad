SPECIFICATION Spec
CONSTANTS
 Top = 20000
 Cap = 5000
 Eps = 100
 Rnd = 2
 Side = 60
INVARIANT Balanced
PROPERTY Lands
CHECK_DEADLOCK FALSE
