SPECIFICATION GenSpec
CONSTANTS MaxHalf = 1
 GenLen = 40
INVARIANT Emit
