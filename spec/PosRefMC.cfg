SPECIFICATION Spec
CONSTANTS MaxT = 2
 GenLen = 0
INVARIANT Correct
