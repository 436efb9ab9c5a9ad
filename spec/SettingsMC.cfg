SPECIFICATION Spec
CONSTANTS GenLen = 0
INVARIANT InForce
INVARIANT Emit1
PROPERTY Refusal
CONSTRAINT Depth1
