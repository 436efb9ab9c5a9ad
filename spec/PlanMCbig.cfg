SPECIFICATION Spec
CONSTANTS MaxN = 2
 GenLen = 0
INVARIANT Correct
INVARIANT Sizes
