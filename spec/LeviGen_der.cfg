SPECIFICATION Spec
CONSTANTS
 GenLen = 30
 Wts <- WDer
INVARIANT Emit
