SPECIFICATION Spec
CONSTANTS
 N = 4
 MaxH = 2
VIEW Sight
INVARIANTS NeverStale Coherent Distinct
