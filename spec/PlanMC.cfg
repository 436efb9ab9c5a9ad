SPECIFICATION Spec
CONSTANTS MaxN = 1
 GenLen = 0
INVARIANT Correct
INVARIANT Sizes
