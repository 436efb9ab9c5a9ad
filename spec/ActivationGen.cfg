SPECIFICATION GenSpec
CONSTANTS Ks <- KsSet
 As <- AsSet
 GenLen = 40
INVARIANT Emit
