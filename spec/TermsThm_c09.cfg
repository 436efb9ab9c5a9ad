SPECIFICATION Spec
CONSTANTS
 Kinds <- CostKinds
 Vals = {0, 1, 2}
INVARIANT CostsArePositive Zero
CHECK_DEADLOCK FALSE
