SPECIFICATION GenSpec
CONSTANTS MaxT = 2
 GenLen = 70
INVARIANT Emit
