SPECIFICATION Spec
CONSTANTS
 GenLen = 40
 Wts <- WCmp
INVARIANT Emit
