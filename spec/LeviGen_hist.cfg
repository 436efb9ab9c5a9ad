SPECIFICATION Spec
CONSTANTS
 GenLen = 30
 Wts <- WHist
INVARIANT Emit
