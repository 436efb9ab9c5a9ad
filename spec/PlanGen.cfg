SPECIFICATION GenSpec
CONSTANTS MaxN = 1
 GenLen = 70
INVARIANT Emit
