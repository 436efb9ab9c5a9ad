SPECIFICATION Spec
CONSTANTS MaxT = 12
 GenLen = 0
 Hs = {10, 20, 30}
 Sds = {3, 8, 16, 24}
INVARIANT Correct
CONSTRAINT Bound
