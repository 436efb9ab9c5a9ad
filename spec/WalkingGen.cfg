SPECIFICATION GenSpec
CONSTANTS MaxT = 2
 GenLen = 60
 Hs = {10}
 Sds = {4}
INVARIANT Emit
