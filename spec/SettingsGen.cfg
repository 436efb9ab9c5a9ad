SPECIFICATION GenSpec
CONSTANTS GenLen = 25
INVARIANT Emit
