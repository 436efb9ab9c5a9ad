SPECIFICATION Spec
CONSTANTS MaxT = 5
 GenLen = 0
INVARIANT Correct
