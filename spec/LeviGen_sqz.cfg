SPECIFICATION Spec
CONSTANTS
 GenLen = 30
 Wts <- WSqz
INVARIANT Emit
