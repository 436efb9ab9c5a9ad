SPECIFICATION Spec
CONSTANTS
 N = 5
 MaxH = 2
VIEW Sight
INVARIANTS NeverStale Coherent Distinct
