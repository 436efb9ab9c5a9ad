SPECIFICATION Spec
CONSTANTS MaxT = 6
 GenLen = 0
 Hs = {10, 20}
 Sds = {4, 12}
INVARIANT Correct
CONSTRAINT Bound
