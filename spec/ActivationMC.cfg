SPECIFICATION Spec
CONSTANTS Ks <- KsSet
 As <- AsSet
 GenLen = 0
INVARIANT Correct
INVARIANT StaysOff
